From 12bfeb53d62e82cde62009b8c4ba3f8734e220c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 01/72] fix: queue buffers support len(), which the batch and
 finite source simulators call

---
 most_queue/sim/utils/qs_queue.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/most_queue/sim/utils/qs_queue.py b/most_queue/sim/utils/qs_queue.py
index dc95773..663f6c3 100644
--- a/most_queue/sim/utils/qs_queue.py
+++ b/most_queue/sim/utils/qs_queue.py
@@ -56,6 +56,9 @@ class QsQueueList:
         """
         return len(self.queue)
 
+    def __len__(self):
+        return self.size()
+
 
 class QsQueueDeque:
     """
@@ -84,3 +87,6 @@ class QsQueueDeque:
         Get size of queue
         """
         return len(self.queue)
+
+    def __len__(self):
+        return self.size()
-- 
2.43.0


From 265444784482ea4d44b35fec627d664c2be7e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 02/72] fix: batch simulator accounts state time up to the
 arrival, not past it

---
 most_queue/sim/batch_sim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index ff7ceb4..5e0d14c 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -47,6 +47,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 batch_size = i + 1
                 break
 
+        self.p[self.in_sys] += self.arrival_time - self.t_old
         self.ttek = self.arrival_time
         self.t_old = self.ttek
 
@@ -54,8 +55,6 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
 
         for tsk in range(batch_size):
             self.arrived += 1
-            self.p[self.in_sys] += self.arrival_time - self.t_old
-
             self.in_sys += 1
 
             if self.free_channels == 0:
-- 
2.43.0


From 61f9ac9f0615ab84f3c7da0986d36b2178bc8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 03/72] fix: batch simulator counts the zero waits of jobs
 served at once

---
 most_queue/sim/batch_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 5e0d14c..029de6a 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -81,6 +81,7 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
                 for s in self.servers:
                     if s.is_free:
                         self.taked += 1
+                        self.refresh_w_stat(0)
                         s.start_service(Task(self.ttek),
                                         self.ttek, is_warm_start)
                         self.free_channels -= 1
-- 
2.43.0


From acc7fd9afbf47b24cdbe781c83719326e8e699f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 04/72] fix: impatience simulator accounts state time when a
 job leaves the queue

---
 most_queue/sim/impatient_queue_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index a92bc61..76bd138 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -91,7 +91,9 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                     break
 
     def drop_task(self, num_of_task_in_queue, moment_to_leave_earlier):
+        self.p[self.in_sys] += moment_to_leave_earlier - self.t_old
         self.ttek = moment_to_leave_earlier
+        self.t_old = self.ttek
         new_queue = []
         for i, tsk in enumerate(self.queue.queue):
             if i != num_of_task_in_queue:
-- 
2.43.0


From 15153b0c03db2cd8defa89e3eb1681b809f9e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 05/72] fix: impatience simulator's waiting moments count zero
 waits and every job once

---
 most_queue/sim/impatient_queue_sim.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 76bd138..048800b 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -1,5 +1,6 @@
 from most_queue.sim.utils.distribution_utils import create_distribution
 from most_queue.sim.qs_sim import QueueingSystemSimulator, Task
+from most_queue.sim.utils.stats_update import refresh_moments_stat
 
 
 class ImpatientTask(Task):
@@ -21,6 +22,8 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.impatience = None
         self.is_set_impatience_params = False
 
+        self.reneged = 0  # number of jobs that left the queue out of impatience
+
     def set_impatiens(self, params, types):
         """
         Задает тип и параметры распределения интервала нетерпения заявок.
@@ -80,6 +83,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(ImpatientTask(
                         self.ttek, moment_to_leave), self.ttek, is_warm_start)
                     self.free_channels -= 1
@@ -105,10 +109,17 @@ class ImpatientQueueSim(QueueingSystemSimulator):
         self.in_sys -= 1
         self.dropped += 1
         self.served += 1
+        self.reneged += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
         end_ts.wait_time = self.ttek - end_ts.arr_time
         self.refresh_w_stat(end_ts.wait_time)
 
+    def refresh_w_stat(self, new_a):
+        """
+        Updating statistics of wait times: of jobs taken for service and of jobs that left
+        """
+        self.w = refresh_moments_stat(self.w, new_a, self.taked + self.reneged)
+
     def run_one_step(self):
 
         num_of_server_earlier = -1
-- 
2.43.0


From 3981aff914d723da6ade6f872cb64696782aa9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 06/72] fix: finite source simulator's waiting moments count
 each taken job once

---
 most_queue/sim/queue_finite_source_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 5fa2e16..ed324e6 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -95,6 +95,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
             for s in self.servers:
                 if s.is_free:
                     self.taked += 1
+                    self.refresh_w_stat(0)
                     s.start_service(Task(self.ttek), self.ttek, is_warm_start)
                     self.free_channels -= 1
 
@@ -128,7 +129,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.total += 1
         self.free_channels += 1
         self.refresh_v_stat(self.ttek - end_ts.arr_time)
-        self.refresh_w_stat(end_ts.wait_time)
         self.in_sys -= 1
 
         if len(self.queue) == 0 and self.free_channels == 1:
@@ -146,6 +146,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
+            self.refresh_w_stat(que_ts.wait_time)
             self.servers[c].start_service(que_ts, self.ttek)
             self.free_channels -= 1
 
-- 
2.43.0


From 6748a705da6c51baf9274633173c4b1f4e79f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 07/72] fix: a source whose job was refused by the finite
 source simulator goes on sending

---
 most_queue/sim/queue_finite_source_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index ed324e6..7709aa3 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -84,6 +84,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
                 else:
                     self.dropped += 1
                     self.in_sys -= 1
+                    self.sources_left += 1
+                    self.arrival_times[self.arrived_num] = self.ttek + self.source.generate()
 
         else:  # there are free channels:
 
-- 
2.43.0


From 3c35c052161c5503b4e4e42d4ec4f2f0ce09d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 08/72] fix: taking the next waiting job does not restart the
 busy period

---
 most_queue/sim/qs_sim.py                  | 7 ++++---
 most_queue/sim/queue_finite_source_sim.py | 3 ---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 12e3f1c..2af974b 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -332,9 +332,6 @@ class QueueingSystemSimulator:
         """
         que_ts = self.queue.pop()
 
-        if self.free_channels == 1:
-            self.start_ppnz = self.ttek
-
         self.taked += 1
         que_ts.wait_time += self.ttek - que_ts.start_waiting_time
         self.refresh_w_stat(que_ts.wait_time)
@@ -358,6 +355,8 @@ class QueueingSystemSimulator:
         for i in range(self.n):
             if self.queue.size() != 0:
                 self.send_head_of_queue_to_channel(i)
+        if self.free_channels == 0:
+            self.start_ppnz = self.ttek
 
     def on_end_cold(self):
         """
@@ -381,6 +380,8 @@ class QueueingSystemSimulator:
             for i in range(self.n):
                 if self.queue.size() != 0:
                     self.send_head_of_queue_to_channel(i)
+            if self.free_channels == 0:
+                self.start_ppnz = self.ttek
 
     def on_end_cold_delay(self):
         """
diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 7709aa3..1140441 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -143,9 +143,6 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
             que_ts = self.queue.pop()
 
-            if self.free_channels == 1:
-                self.start_ppnz = self.ttek
-
             self.taked += 1
             que_ts.wait_time += self.ttek - que_ts.start_waiting_time
             self.refresh_w_stat(que_ts.wait_time)
-- 
2.43.0


From 23a30c3a4f16e15bf1e8d4ee497ddc6ff47cf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 09/72] fix: multi-class simulator works without priorities
 (one common queue)

---
 most_queue/sim/priority_queue_sim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 3ded2e1..db3ab4b 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -441,7 +441,10 @@ class PriorityQueueSimulator:
         self.refresh_w_stat(k, end_ts.wait_time)
         self.in_sys[k] -= 1
 
-        if len(self.queue[k]) == 0 and self.free_channels == 1:
+        # без приоритетов очередь общая для всех классов
+        waiting = self.queue if self.prty_type == "No" else self.queue[k]
+
+        if len(waiting) == 0 and self.free_channels == 1:
             if self.in_sys[k] == self.n - 1 and self.class_ppnz_started != -1:
                 # Конец ПНЗ
                 self.ppnz_moments[k] += 1
@@ -479,14 +482,18 @@ class PriorityQueueSimulator:
             if len(self.queue) != 0:
 
                 que_ts = self.queue.pop(0)
+                kk = que_ts.in_node_class_num if is_network else que_ts.k
 
-                if self.free_channels == 1 and k != end_ts.k:
-                    self.start_ppnz[k] = self.ttek
-                    self.class_ppnz_started = k
+                if self.free_channels == 1 and kk != k:
+                    self.start_ppnz = self.ttek
+                    self.class_ppnz_started = kk
 
-                self.taked[k] += 1
+                self.taked[kk] += 1
                 que_ts.wait_time += self.ttek - que_ts.start_waiting_time
-                self.servers[c].start_service(que_ts, self.ttek)
+                if is_network:
+                    que_ts.wait_network += self.ttek - que_ts.start_waiting_time
+                self.servers[c].start_service(
+                    que_ts, self.ttek, is_network=is_network)
                 self.free_channels -= 1
         if is_network:
             return end_ts
@@ -668,6 +675,9 @@ class PriorityQueueSimulator:
                 res += "Server " + str(c + 1) + ": Free\n"
             else:
                 res += str(self.servers[c]) + "\n"
+                if self.prty_type == 'No':
+                    res += "Queue count " + str(len(self.queue)) + "\n"
+                    continue
                 for kk in range(self.k):
                     res += "Queue # " + \
                         str(kk + 1) + " count " + \
-- 
2.43.0


From b06f32e45e0facfa9dc75399c713169bfad172e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 10/72] fix: a buffer of zero places is not an infinite buffer
 in the multi-class simulator

---
 most_queue/sim/priority_queue_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index db3ab4b..f1d959e 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -310,7 +310,7 @@ class PriorityQueueSimulator:
 
             if self.prty_type == 'No':
 
-                if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                     new_tsk.start_waiting_time = self.ttek
                     self.queue.append(new_tsk)
                 else:
@@ -370,7 +370,7 @@ class PriorityQueueSimulator:
 
                             break
                     if not is_found_weekier:
-                        if not self.buffer:  # не задана длина очередиб т.е бесконечная очередь
+                        if self.buffer is None:  # не задана длина очередиб т.е бесконечная очередь
                             new_tsk.start_waiting_time = self.ttek
                             self.queue[k].append(new_tsk)
                         else:
-- 
2.43.0


From 2bd68aaf3f041b7cb2ec48b3a808b2bbf1bf86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 11/72] fix: the buffer limits the queue under non-preemptive
 priority too

---
 most_queue/sim/priority_queue_sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index f1d959e..90c50ff 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -386,9 +386,12 @@ class PriorityQueueSimulator:
                                 self.in_sys[k] -= 1
 
             elif self.prty_type == "NP":
-                if self.free_channels == 0:
+                if self.buffer is None or sum(len(q) for q in self.queue) < self.buffer:
                     new_tsk.start_waiting_time = self.ttek
                     self.queue[k].append(new_tsk)
+                else:
+                    self.dropped[k] += 1
+                    self.in_sys[k] -= 1
 
         else:  # there are free channels:
             if self.free_channels == self.n and self.is_warm_up_set == True:
-- 
2.43.0


From 43fff6f42b138756dbccfe48a76a444d866cba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 12/72] fix: an interrupted job is resampled from its own
 class's service distribution

---
 most_queue/sim/priority_queue_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 90c50ff..83f696b 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -353,7 +353,7 @@ class PriorityQueueSimulator:
                             if self.prty_type == 'PR':
                                 dropped_tsk.time_to_end_service = time_to_end - self.ttek
                             elif self.prty_type == "RS":
-                                dropped_tsk.time_to_end_service = c.dist[k].generate(
+                                dropped_tsk.time_to_end_service = c.dist[class_on_service].generate(
                                 )
                             elif self.prty_type == "RW":
                                 dropped_tsk.time_to_end_service = total_time
-- 
2.43.0


From 13ebb35035469f769b48b1690ea6c3eba8ddacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 13/72] fix: a job interrupted twice under RW repeats its full
 service time again

---
 most_queue/sim/priority_queue_sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 83f696b..d5d0200 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -769,6 +769,7 @@ class Server:
             self.tsk_on_service.time_to_end_service = self.time_to_end_service
         else:
             if ts.is_pr:
+                self.total_time_to_serve = ts.time_to_end_service
                 self.time_to_end_service = ttek + ts.time_to_end_service
                 self.tsk_on_service.time_to_end_service = self.time_to_end_service
             else:
-- 
2.43.0


From 8657f33298c814d99735edda703d22703da3e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 14/72] fix: preemption interrupts the job of the lowest class
 in service

---
 most_queue/sim/priority_queue_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index d5d0200..80c23a6 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -327,7 +327,8 @@ class PriorityQueueSimulator:
                 if self.free_channels == 0:
                     # смотрим, есть ли на обслуживании заявки младшего класса
                     is_found_weekier = False
-                    for c in self.servers:
+                    # (самого младшего - первым)
+                    for c in sorted(self.servers, key=lambda s: -s.class_on_service):
                         if moment:
                             class_on_service = c.tsk_on_service.in_node_class_num
                         else:
-- 
2.43.0


From e3ec4d53a583eb7694a4c5e5f864bc8d4ac86835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 15/72] fix: network nodes serve each class with its own
 distribution for any priority order

---
 most_queue/sim/priority_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 891cace..572bd3b 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -36,10 +36,10 @@ class PriorityNetwork:
 
         for m in range(self.n_num):
             self.smos.append(PriorityQueueSimulator(n[m], k_num, prty[m]))
-            param_serv_reset = []  # из-за смены порядка приоритетов в узле
+            param_serv_reset = [None] * k_num  # из-за смены порядка приоритетов в узле
             # для расчета необходимо преобразовать список с параметрами вр обслуживания в узле
             for k in range(k_num):
-                param_serv_reset.append(serv_params[m][nodes_prty[m][k]])
+                param_serv_reset[nodes_prty[m][k]] = serv_params[m][k]
 
             self.smos[m].set_servers(param_serv_reset)
             time.sleep(0.1)
-- 
2.43.0


From 86bee13b4a57cf560711a0bda786ac2a2a3dd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 16/72] fix: fork-join simulator enforces its buffer

---
 most_queue/sim/fj_sim.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index c6b372f..aa996dc 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -54,16 +54,18 @@ class ForkJoinSim(QueueingSystemSimulator):
 
         is_dropped = False
 
-        if self.buffer:  # ограниченная длина очереди
+        if self.buffer is not None:  # ограниченная длина очереди
             if not self.is_SJ:
-
-                if self.queue.size() + self.k - 1 > self.buffer + self.free_channels:
-                    self.dropped += 1
-                    is_dropped = True
+                # в очередь встанут подзадачи для занятых каналов
+                new_waiting = self.n - self.free_channels
+                waiting = sum(len(q) for q in self.queues)
             else:
-                if self.free_channels == 0 and self.queue.size() + self.k - 1 > self.buffer:
-                    self.dropped += 1
-                    is_dropped = True
+                new_waiting = self.n if self.free_channels < self.n else 0
+                waiting = self.queue.size()
+
+            if new_waiting > 0 and waiting + new_waiting > self.buffer:
+                self.dropped += 1
+                is_dropped = True
 
         if not is_dropped:
             self.served_subtask_in_task[ForkJoinTask.task_id] = 0
-- 
2.43.0


From c75ff8fee0959f78e6208ace511358a16567c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 17/72] fix: purging removes the rest of a departed fork-join
 task and frees its channels

---
 most_queue/sim/fj_sim.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index aa996dc..b57583b 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -113,27 +113,35 @@ class ForkJoinSim(QueueingSystemSimulator):
 
         if not self.is_SJ:
 
+            freed_channels = [c]
+
             if self.served_subtask_in_task[end_ts.task_id] == self.k:
 
                 if self.is_Purge:
                     # найти все остальные подзадачи в СМО и выкинуть
                     task_id = end_ts.task_id
                     for i in range(self.n):
-                        if self.servers[i].tsk_on_service.task_id == task_id:
-                            self.servers[c].end_service()
+                        tsk = self.servers[i].tsk_on_service
+                        if tsk is not None and tsk.task_id == task_id:
+                            self.servers[i].end_service()
+                            self.free_channels += 1
+                            self.sub_task_in_sys -= 1
+                            freed_channels.append(i)
                     for i in range(self.n):
-                        for j in range(len(self.queues[i])):
-                            if self.queues[i][j].task_id == task_id:
-                                self.queues[i].pop(j)
+                        left = [q for q in self.queues[i]
+                                if q.task_id != task_id]
+                        self.sub_task_in_sys -= len(self.queues[i]) - len(left)
+                        self.queues[i] = left
 
                 self.served += 1
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
-            if len(self.queues[c]) != 0:
-                que_ts = self.queues[c].pop(0)
-                self.servers[c].start_service(que_ts, self.ttek)
-                self.free_channels -= 1
+            for i in freed_channels:
+                if len(self.queues[i]) != 0:
+                    que_ts = self.queues[i].pop(0)
+                    self.servers[i].start_service(que_ts, self.ttek)
+                    self.free_channels -= 1
 
         else:
             if self.served_subtask_in_task[end_ts.task_id] == self.n:
-- 
2.43.0


From bc178973a03485cc87c34f3f1a76318509374f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 18/72] fix: fork-join simulators number their tasks themselves
 instead of sharing one counter

---
 most_queue/sim/fj_delta_sim.py | 4 ++--
 most_queue/sim/fj_sim.py       | 4 ++--
 most_queue/sim/utils/tasks.py  | 8 +++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 14c114c..6619b90 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -47,8 +47,8 @@ class ForkJoinSimDelta(ForkJoinSim):
                     is_dropped = True
 
         if not is_dropped:
-            self.served_subtask_in_task[ForkJoinTask.task_id] = 0
-            t = ForkJoinTask(self.k, self.ttek)
+            t = ForkJoinTask(self.k, self.ttek, self.arrived)
+            self.served_subtask_in_task[t.id] = 0
             self.first_subtask_arr_time[t.id] = self.ttek
 
             self.in_sys += 1
diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index b57583b..7bdd18e 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -68,8 +68,8 @@ class ForkJoinSim(QueueingSystemSimulator):
                 is_dropped = True
 
         if not is_dropped:
-            self.served_subtask_in_task[ForkJoinTask.task_id] = 0
-            t = ForkJoinTask(self.n, self.ttek)
+            t = ForkJoinTask(self.n, self.ttek, self.arrived)
+            self.served_subtask_in_task[t.id] = 0
             self.in_sys += 1
             self.sub_task_in_sys += self.n
 
diff --git a/most_queue/sim/utils/tasks.py b/most_queue/sim/utils/tasks.py
index e2a84d0..2880af4 100644
--- a/most_queue/sim/utils/tasks.py
+++ b/most_queue/sim/utils/tasks.py
@@ -53,13 +53,15 @@ class ForkJoinTask:
     """
     task_id = 0
 
-    def __init__(self, subtask_num, arr_time):
+    def __init__(self, subtask_num, arr_time, task_id=None):
+        if task_id is None:
+            task_id = ForkJoinTask.task_id
         self.subtask_num = subtask_num
         self.arr_time = arr_time
         self.subtasks = []
         for i in range(subtask_num):
-            self.subtasks.append(SubTask(arr_time, ForkJoinTask.task_id))
-        self.id = ForkJoinTask.task_id
+            self.subtasks.append(SubTask(arr_time, task_id))
+        self.id = task_id
         ForkJoinTask.task_id += 1
 
     def __str__(self):
-- 
2.43.0


From e4fc49502ea5a72e58443215334f184a98e3c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 19/72] fix: a late part of a fork-join task can start at once
 in the simulator with delays

---
 most_queue/sim/fj_delta_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 6619b90..43c311e 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -106,7 +106,7 @@ class ForkJoinSimDelta(ForkJoinSim):
                 else:  # there are free channels:
                     for s in self.servers:
                         if s.is_free:
-                            s.start_service(subtsk)
+                            s.start_service(subtsk, self.ttek)
                             self.free_channels -= 1
                             break
 
-- 
2.43.0


From e9e798b1a5f694c6e3118161fbf02f296bdea84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 20/72] fix: split-join simulator with delays serves one task
 at a time and loses no part

---
 most_queue/sim/fj_delta_sim.py | 46 +++++++++++++---------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index 43c311e..a70d8f4 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -67,7 +67,7 @@ class ForkJoinSimDelta(ForkJoinSim):
 
             else:  # Split-Join discipline
 
-                if self.free_channels < self.k:
+                if self.serv_task_id != -1:
                     self.queue.append(t.subtasks[0])
                 else:
                     self.servers[0].start_service(t.subtasks[0], self.ttek)
@@ -129,7 +129,6 @@ class ForkJoinSimDelta(ForkJoinSim):
         time_to_end = self.servers[c].time_to_end_service
         self.p[self.in_sys] += time_to_end - self.t_old
         end_ts = self.servers[c].end_service()
-        self.serv_task_id = end_ts.task_id
         self.ttek = time_to_end
         self.t_old = self.ttek
         self.served_subtask_in_task[end_ts.task_id] += 1
@@ -156,34 +155,23 @@ class ForkJoinSimDelta(ForkJoinSim):
                 self.refresh_v_stat(self.ttek - end_ts.arr_time)
                 self.in_sys -= 1
 
+                # next task's turn, if any is waiting
+                self.serv_task_id = -1
                 if self.queue.size() != 0:
-
-                    new_task_id = self.queue.queue[0].task_id
-
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == new_task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != new_task_id]
-            else:
-                if self.queue.size() != 0:
-                    brothers = [q for q in range(
-                        self.queue.size()) if self.queue.queue[q].task_id == end_ts.task_id]
-                    for q in brothers:
-                        que_ts = self.queue.queue[q]
-                        for serv in self.servers:
-                            if serv.is_free:
-                                serv.start_service(que_ts, self.ttek)
-                                self.free_channels -= 1
-                                break
-                    self.queue.queue = [
-                        q for q in self.queue.queue if q.task_id != end_ts.task_id]
+                    self.serv_task_id = self.queue.queue[0].task_id
+
+            # start waiting parts of the current task while channels are free
+            still_waiting = []
+            for que_ts in self.queue.queue:
+                if que_ts.task_id == self.serv_task_id and self.free_channels != 0:
+                    for serv in self.servers:
+                        if serv.is_free:
+                            serv.start_service(que_ts, self.ttek)
+                            self.free_channels -= 1
+                            break
+                else:
+                    still_waiting.append(que_ts)
+            self.queue.queue = still_waiting
 
     def run_one_step(self):
 
-- 
2.43.0


From e08eab094d5ee7b68f806779486a3fec268f7b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 21/72] fix: an idle channel or phase is due never, not at time
 1e10 (1e16)

---
 most_queue/sim/fj_delta_sim.py            |  4 ++--
 most_queue/sim/fj_sim.py                  |  2 +-
 most_queue/sim/impatient_queue_sim.py     |  6 +++---
 most_queue/sim/priority_network.py        |  4 ++--
 most_queue/sim/priority_queue_sim.py      | 12 ++++++------
 most_queue/sim/qs_sim.py                  |  4 ++--
 most_queue/sim/queue_finite_source_sim.py | 12 ++++++------
 most_queue/sim/utils/phase.py             |  4 ++--
 most_queue/sim/utils/servers.py           |  4 ++--
 9 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/most_queue/sim/fj_delta_sim.py b/most_queue/sim/fj_delta_sim.py
index a70d8f4..37e9a09 100755
--- a/most_queue/sim/fj_delta_sim.py
+++ b/most_queue/sim/fj_delta_sim.py
@@ -176,14 +176,14 @@ class ForkJoinSimDelta(ForkJoinSim):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
                 serv_earl = self.servers[c].time_to_end_service
                 num_of_server_earlier = c
 
-        subtask_arr_time_earl = 1e10
+        subtask_arr_time_earl = float('inf')
         num_of_subtask_earl = -1
 
         for c in range(len(self.subtask_arr_queue)):
diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 7bdd18e..0e97154 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -159,7 +159,7 @@ class ForkJoinSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 048800b..30466eb 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -123,7 +123,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -131,7 +131,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 num_of_server_earlier = c
 
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
@@ -153,7 +153,7 @@ class ImpatientQueueSim(QueueingSystemSimulator):
     def __str__(self, is_short=False):
         super().__str__(is_short)
         num_of_task_earlier = -1
-        moment_to_leave_earlier = 1e10
+        moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
diff --git a/most_queue/sim/priority_network.py b/most_queue/sim/priority_network.py
index 572bd3b..d766ac6 100755
--- a/most_queue/sim/priority_network.py
+++ b/most_queue/sim/priority_network.py
@@ -85,8 +85,8 @@ class PriorityNetwork:
         num_of_serv_ch_earlier = -1  # номер канала узла, мин время до окончания обслуживания
         num_of_k_earlier = -1  # номер класса, прибывающего через мин время
         num_of_node_earlier = -1  # номер узла, в котором раньше всех закончится обслуживание
-        arrival_earlier = 1e10  # момент прибытия ближайшего
-        serving_earlier = 1e10  # момент ближайшего обслуживания
+        arrival_earlier = float('inf')  # момент прибытия ближайшего
+        serving_earlier = float('inf')  # момент ближайшего обслуживания
 
         for k in range(self.k_num):
             if self.arrival_time[k] < arrival_earlier:
diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 80c23a6..de75c1d 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -508,8 +508,8 @@ class PriorityQueueSimulator:
         self.queue[new_class] = buf
 
     def calc_time_to_next_event(self):
-        serv_earl = 1e10
-        arrival_earlier = 1e10
+        serv_earl = float('inf')
+        arrival_earlier = float('inf')
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -530,10 +530,10 @@ class PriorityQueueSimulator:
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
+        serv_earl = float('inf')
 
         k_earlier = -1
-        arrival_earlier = 1e10
+        arrival_earlier = float('inf')
 
         for kk in range(self.k):
             if self.arrival_time[kk] < arrival_earlier:
@@ -746,7 +746,7 @@ class Server:
             self.dist.append(create_distribution(
                 params, dist_type, self.generator))
 
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.total_time_to_serve = 0
         # Сохранение типа дисциплины обслуживания необходимо для
         # корректного назначения времени обслуживания после прерывания
@@ -781,7 +781,7 @@ class Server:
         self.is_free = False
 
     def end_service(self):
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
diff --git a/most_queue/sim/qs_sim.py b/most_queue/sim/qs_sim.py
index 2af974b..f983536 100755
--- a/most_queue/sim/qs_sim.py
+++ b/most_queue/sim/qs_sim.py
@@ -256,7 +256,7 @@ class QueueingSystemSimulator:
                 if self.cold_delay_phase.is_start:
                     # The job was received before the end of the cooling start delay time
                     self.cold_delay_phase.is_start = False
-                    self.cold_delay_phase.end_time = 1e16
+                    self.cold_delay_phase.end_time = float('inf')
                     self.cold_delay_phase.prob += self.ttek - self.cold_delay_phase.start_mom
                     self.send_task_to_channel()
                     return
@@ -403,7 +403,7 @@ class QueueingSystemSimulator:
         """
 
         num_of_server_earlier = -1
-        serv_earl = 1e16
+        serv_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 1140441..121f202 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -69,7 +69,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.in_sys += 1
         self.ttek = self.arrival_times[self.arrived_num]
         self.t_old = self.ttek
-        self.arrival_times[self.arrived_num] = 1e10
+        self.arrival_times[self.arrived_num] = float('inf')
 
         if self.free_channels == 0:
             if self.buffer == None:  # не задана длина очереди, т.е бесконечная очередь
@@ -122,7 +122,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         self.ttek = time_to_end
 
         for i, a in enumerate(self.arrival_times):
-            if a > 9.9e9:
+            if a == float('inf'):
                 self.arrival_times[i] = self.ttek + self.source.generate()
                 break
 
@@ -151,8 +151,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
 
     def calc_next_event_time(self):
 
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = float('inf')
+        arr_earl = float('inf')
 
         for c in range(self.n):
             if self.servers[c].time_to_end_service < serv_earl:
@@ -170,8 +170,8 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
     def run_one_step(self):
 
         num_of_server_earlier = -1
-        serv_earl = 1e10
-        arr_earl = 1e10
+        serv_earl = float('inf')
+        arr_earl = float('inf')
         self.arrived_num = -1
 
         if self.sources_left != 0:
diff --git a/most_queue/sim/utils/phase.py b/most_queue/sim/utils/phase.py
index b5e4cf4..3d539f0 100644
--- a/most_queue/sim/utils/phase.py
+++ b/most_queue/sim/utils/phase.py
@@ -18,7 +18,7 @@ class QsPhase:
         self.name = name
         self.is_set = False
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = float('inf')
         self.prob = 0
         self.start_mom = 0
         self.starts_times = 0
@@ -53,7 +53,7 @@ class QsPhase:
         self.prob += ttek - self.start_mom
 
         self.is_start = False
-        self.end_time = 1e16
+        self.end_time = float('inf')
 
     def get_prob(self, ttek):
         """
diff --git a/most_queue/sim/utils/servers.py b/most_queue/sim/utils/servers.py
index 848a8d4..ee5d179 100644
--- a/most_queue/sim/utils/servers.py
+++ b/most_queue/sim/utils/servers.py
@@ -20,7 +20,7 @@ class Server:
         types -  тип распределения
         """
         self.dist = create_distribution(params, types, generator)
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         self.tsk_on_service = None
         Server.id += 1
@@ -55,7 +55,7 @@ class Server:
         """
         End service
         """
-        self.time_to_end_service = 1e10
+        self.time_to_end_service = float('inf')
         self.is_free = True
         ts = self.tsk_on_service
         self.tsk_on_service = None
-- 
2.43.0


From ba8330e2786f6d1fed895652fdefbb4096d4ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 22/72] fix: exponential distribution draws from the generator
 it is given

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 47a0ce4..a5c123c 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -720,7 +720,7 @@ class Exp_dist:
     """
 
     def __init__(self, mu, generator=None):
-        self.erl = Erlang_dist([1, mu])
+        self.erl = Erlang_dist([1, mu], generator)
         self.params = mu
         self.type = 'M'
         self.generator = generator
-- 
2.43.0


From b63479b32a655430b114d43d6da8b27ff5dd73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 23/72] fix: report of the finite source simulator with fewer
 than 9 sources

---
 most_queue/sim/queue_finite_source_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/sim/queue_finite_source_sim.py b/most_queue/sim/queue_finite_source_sim.py
index 121f202..a3649b3 100755
--- a/most_queue/sim/queue_finite_source_sim.py
+++ b/most_queue/sim/queue_finite_source_sim.py
@@ -227,7 +227,7 @@ class QueueingFiniteSourceSim(QueueingSystemSimulator):
         if not is_short:
             res += "Stationary prob:\n"
             res += "\t"
-            for i in range(10):
+            for i in range(min(10, len(self.p))):
                 res += "{0:6.5f}".format(self.p[i] / self.ttek) + "   "
             res += "\n"
             res += "Arrived: " + str(self.arrived) + "\n"
-- 
2.43.0


From 2c40d9c1695dae50490dc95d1c53465543b3e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 24/72] fix: load factor in the reports for every supported
 distribution

---
 most_queue/sim/priority_queue_sim.py       | 21 ++++++++++-----------
 most_queue/sim/utils/distribution_utils.py |  7 +++----
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index de75c1d..063fe53 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -189,8 +189,8 @@ class PriorityQueueSimulator:
             elif self.sources_params[i]['type'] == "H":
                 y1 = self.sources_params[i]['params'][0]
                 y2 = 1.0 - y1
-                mu1 = self.sources_params[i]['type'][1]
-                mu2 = self.sources_params[i]['type'][2]
+                mu1 = self.sources_params[i]['params'][1]
+                mu2 = self.sources_params[i]['params'][2]
 
                 f1 = y1 / mu1 + y2 / mu2
                 l_sum += 1.0 / f1
@@ -214,19 +214,18 @@ class PriorityQueueSimulator:
                 f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
                 l_sum += 1.0 / f1
             elif self.sources_params[i]['type'] == "Pa":
-                if self.sources_params[i]['params'][0] < 1:
-                    return None
-                else:
+                # infinite mean interval adds nothing to the arrival rate
+                if self.sources_params[i]['params'][0] > 1:
                     a = self.sources_params[i]['params'][0]
                     k = self.sources_params[i]['params'][1]
                     f1 = a * k / (a - 1)
                     l_sum += 1.0 / f1
             elif self.sources_params[i]['type'] == "Uniform":
-                f1 = self.sources_params[i]['type'][0]
+                f1 = self.sources_params[i]['params'][0]
                 l_sum += 1.0 / f1
 
             elif self.sources_params[i]['type'] == "D":
-                f1 = self.sources_params[i]['type']
+                f1 = self.sources_params[i]['params']
                 l_sum += 1.0 / f1
 
             if self.servers_params[i]['type'] == "M":
@@ -253,11 +252,11 @@ class PriorityQueueSimulator:
 
             elif self.servers_params[i]['type'] == "Uniform":
                 f1 = self.servers_params[i]['params'][0]
-                b1_sr += 1.0 / f1
+                b1_sr += f1
 
             elif self.servers_params[i]['type'] == "D":
-                f1 = self.servers_params[i]['type']
-                b1_sr += 1.0 / f1
+                f1 = self.servers_params[i]['params']
+                b1_sr += f1
 
             elif self.servers_params[i]['type'] == "C":
                 y1 = self.servers_params[i]['params'][0]
@@ -267,7 +266,7 @@ class PriorityQueueSimulator:
 
                 b1_sr += y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
             elif self.servers_params[i]['type'] == "Pa":
-                if self.servers_params[i]['params'][0] < 1:
+                if self.servers_params[i]['params'][0] <= 1:
                     return math.inf
                 else:
                     a = self.servers_params[i]['params'][0]
diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 0f86658..5622303 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -121,9 +121,8 @@ def calc_qs_load(source_types: str, source_params,
         f1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
         l = 1.0 / f1
     elif source_types == "Pa":
-        if source_params[0] < 1:
-            return None
-        else:
+        # infinite mean interval means zero arrival rate
+        if source_params[0] > 1:
             a = source_params[0]
             k = source_params[1]
             f1 = a * k / (a - 1)
@@ -164,7 +163,7 @@ def calc_qs_load(source_types: str, source_params,
 
         b1 = y2 / mu1 + y1 * (1.0 / mu1 + 1.0 / mu2)
     elif server_types == "Pa":
-        if server_params[0] < 1:
+        if server_params[0] <= 1:
             return math.inf
         else:
             a = server_params[0]
-- 
2.43.0


From 55c385a7ddb366d944f865c3e8809d6ac772a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 25/72] fix: saving experiment statistics never damages the
 previously saved file

---
 .../general_utils/vacations_paper_utils.py       | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/most_queue/general_utils/vacations_paper_utils.py b/most_queue/general_utils/vacations_paper_utils.py
index 456ec79..662061b 100644
--- a/most_queue/general_utils/vacations_paper_utils.py
+++ b/most_queue/general_utils/vacations_paper_utils.py
@@ -1,5 +1,6 @@
 import json
 import math
+import os
 
 import matplotlib
 import matplotlib.pyplot as plt
@@ -43,8 +44,19 @@ def print_table(experiments_stat):
 
 
 def dump_stat(experiments_stat, save_name='run_stat.json'):
-    with open(save_name, 'w') as f:
-        json.dump(experiments_stat, f)
+    # write aside and put into place in one step, so that a failure
+    # on the way leaves the previously saved file unharmed
+    tmp_name = f'{save_name}.tmp'
+    try:
+        with open(tmp_name, 'w') as f:
+            json.dump(experiments_stat, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_name, save_name)
+    except BaseException:
+        if os.path.exists(tmp_name):
+            os.remove(tmp_name)
+        raise
 
 
 def load_stat(stat_name):
-- 
2.43.0


From fc862521870bb0e50bfdd72669b797b4e5f0f287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 26/72] fix: Erlang times of high order were infinite

---
 most_queue/rand_distribution.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index a5c123c..d4c86e4 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -648,14 +648,15 @@ class Erlang_dist:
         """
         Генератор псевдо-случайных чисел. Статический метод
         """
-        prod = 1
+        # sum of logarithms: a product of many factors would underflow to zero
+        log_prod = 0.0
         for i in range(r):
             if generator:
-                prod *= generator.random()
+                log_prod += np.log(generator.random())
             else:
-                prod *= np.random.rand()
+                log_prod += np.log(np.random.rand())
 
-        return -(1.0 / mu) * np.log(prod)
+        return -(1.0 / mu) * log_prod
 
     @staticmethod
     def get_cdf(params, t):
-- 
2.43.0


From 619bda21c4dd7951fd00d6d42d360f6dd6c21e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 27/72] fix: M/G/1 probabilities with uniform service were
 right for arrival rate 1 only

---
 most_queue/theory/utils/q_poisson_arrival_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 0cace10..5cdde05 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -30,10 +30,10 @@ def get_q_uniform(l, mean, half_interval, num=100):
     for j in range(num):
         summ1 = 0
         for i in range(j + 1):
-            summ1 += l * pow(mean - half_interval, i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
+            summ1 += pow(l * (mean - half_interval), i) * math.exp(-l * (mean - half_interval)) / math.factorial(i)
         summ2 = 0
         for i in range(j + 1):
-            summ2 += l * pow(mean + half_interval, i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
+            summ2 += pow(l * (mean + half_interval), i) * math.exp(-l * (mean + half_interval)) / math.factorial(i)
         q[j] = (1.0 / (2 * l * half_interval)) * (summ1 - summ2)
 
     return q
-- 
2.43.0


From 1b938ac894102c4208e217253810ad8f07ff0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 28/72] fix: M/M/n/r waiting moments are those of the admitted
 jobs

---
 most_queue/theory/mmnr_calc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index db2aeb4..6acc76d 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -38,10 +38,16 @@ class MMnr_calc:
 
     @staticmethod
     def get_w(l, mu, n, r, num=3):
-        qs = MMnr_calc.get_qs(l, mu, n, r, q_num=num)
+        # a job admitted with i jobs waiting needs i + 1 departures to get into service
+        p = MMnr_calc.get_p(l, mu, n, r)
+
         w = [0] * num
         for k in range(num):
-            w[k] = qs[k] / pow(l, k + 1)
+            for i in range(r):
+                prod = 1.0
+                for j in range(k + 1):
+                    prod *= (i + 1 + j) / (n * mu)
+                w[k] += prod * p[n + i] / (1.0 - p[n + r])
         return w
 
     @staticmethod
-- 
2.43.0


From 07aaf8c7fb337105f223aa7a4a7a769822f21bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 29/72] fix: M/M/n/r at load exactly one

---
 most_queue/theory/mmnr_calc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mmnr_calc.py b/most_queue/theory/mmnr_calc.py
index 6acc76d..e1e3d13 100755
--- a/most_queue/theory/mmnr_calc.py
+++ b/most_queue/theory/mmnr_calc.py
@@ -67,11 +67,12 @@ class MMnr_calc:
         for i in range(n):
             summ1 += pow(ro, i) / math.factorial(i)
 
-        chisl = 1 - pow(ro / n, r + 1)
         coef = pow(ro, n) / math.factorial(n)
-        znam = 1 - (ro / n)
+        summ2 = 0
+        for i in range(r + 1):
+            summ2 += pow(ro / n, i)
 
-        p[0] = 1.0 / (summ1 + coef * chisl / znam)
+        p[0] = 1.0 / (summ1 + coef * summ2)
 
         for i in range(n):
             p[i] = pow(ro, i) * p[0] / math.factorial(i)
-- 
2.43.0


From 7663381b433fa2ff99f603a20622f7ff5949e61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 30/72] fix: M/G/1 preemptive waiting counted the class itself
 among its preemptors

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3f9813d..13a3f09 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -233,7 +233,7 @@ def calc_pr1(l, b, num=3):
             for m in range(i):
                 summ += w[j][m] * h[j][i - m] * math.factorial(i) / (math.factorial(m) * math.factorial(i + 1 - m))
 
-            w[j][i] = (c * L[j] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
+            w[j][i] = (c * L[j - 1] * pi_j[j - 1][i] / (i + 1) + l[j] * summ) / (1.0 - l[j] * h[j][0])
         w[j] = w[j][1:]
         v[j][0] = w[j][0] + h[j][0]
         v[j][1] = w[j][1] + 2 * w[j][0] * h[j][0] + h[j][1]
-- 
2.43.0


From 5c0a081fb8e8ea0c692b83ae64c5a8e995357662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 31/72] fix: classes without priorities share a service law
 weighted by their rates

---
 most_queue/theory/priority_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 13a3f09..14314ea 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -280,8 +280,8 @@ def get_w_mg1_bp(l, b):
     for i in range(num_of_moment):
         b_sr.append(0)
         for k in range(num_of_classes):
-            b_sr[i] += b[k][i]
-        b_sr[i] /= num_of_classes
+            b_sr[i] += l[k] * b[k][i]
+        b_sr[i] /= l_sum
 
     w_k = get_w(l_sum, b_sr)
 
@@ -525,8 +525,8 @@ def get_w_MxGn_no_pr(l, b, n):
     for j in range(num_of_mom):
         b_sr.append(0)
         for k in range(len(b)):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= num_of_mom
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= l_sum
 
     tt = MGnCalc(n, l_sum, b_sr)
     tt.run()
-- 
2.43.0


From afda8a9ad71fa6a04de425ab1e5489ddcb8ee580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:52 +0000
Subject: [PATCH 32/72] fix: priority invariants compare queues of the same
 load and of stable precision

---
 most_queue/theory/priority_calc.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 14314ea..fd6e0e6 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -3,7 +3,7 @@ import math
 from most_queue.rand_distribution import Gamma
 from most_queue.theory.utils.diff5dots import diff5dots
 
-from most_queue.theory.mg1_calc import get_p, get_w
+from most_queue.theory.mg1_calc import get_w
 from most_queue.theory.mgn_tt import MGnCalc
 
 
@@ -469,15 +469,12 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     l_sum = 0
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b1[k][j]
-        b_sr[j] /= k_num
+            b_sr[j] += l[k] * b1[k][j]
+        b_sr[j] /= sum(l)
     for k in range(k_num):
         l_sum += l[k]
 
-    p1 = get_p(l_sum, b_sr, N)
-    q1 = 0
-    for i in range(1, N):
-        q1 += (i - 1) * p1[i]
+    q1 = l_sum * get_w(l_sum, b_sr)[0]
 
     # M/G/n calculation:
 
@@ -485,8 +482,8 @@ def get_w_prty_invar(l, b, n, type='NP', N=150, num=3):
     l_sum = 0
     for j in range(j_num):
         for k in range(k_num):
-            b_sr[j] += b[k][j]
-        b_sr[j] /= k_num
+            b_sr[j] += l[k] * b[k][j]
+        b_sr[j] /= sum(l)
     for k in range(k_num):
         l_sum += l[k]
 
-- 
2.43.0


From b4b8825e2d2f62b2c43e860ed056630ca618f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 33/72] fix: Engset waiting moments differentiate with a step
 of the service rate's scale

---
 most_queue/theory/engset_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/engset_model.py b/most_queue/theory/engset_model.py
index 7f6e3e4..3bd9920 100755
--- a/most_queue/theory/engset_model.py
+++ b/most_queue/theory/engset_model.py
@@ -93,7 +93,7 @@ class Engset:
         """
         Начальные моменты времени ожидания через дифф ПЛС
         """
-        h = 0.01
+        h = 0.01 * self.mu
         ss = [x * h for x in range(5)]
         p0 = self.get_p()[0]
         N = self.get_N()
-- 
2.43.0


From 5a76240b17179125a5dd2d638fddce7efbe53d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 34/72] fix: H2 fit of exponential moments divided by zero
 before its check for them

---
 most_queue/rand_distribution.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index d4c86e4..06cdccb 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -276,15 +276,6 @@ class H2_dist:
         Возвращает список с параметрами [y1, mu1, mu2]
         """
 
-        f = [0.0] * 3
-        for i in range(3):
-            f[i] = complex(moments[i] / math.factorial(i + 1))
-        znam = (f[1] - pow(f[0], 2))
-        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
-        c1 = (f[0] * f[1] - f[2]) / znam
-
-        d = pow(c1 / 2.0, 2.0) - c0
-
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
@@ -315,6 +306,15 @@ class H2_dist:
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
+        f = [0.0] * 3
+        for i in range(3):
+            f[i] = complex(moments[i] / math.factorial(i + 1))
+        znam = (f[1] - pow(f[0], 2))
+        c0 = (f[0] * f[2] - pow(f[1], 2)) / znam
+        c1 = (f[0] * f[1] - f[2]) / znam
+
+        d = pow(c1 / 2.0, 2.0) - c0
+
         res = [0, 0, 0]  # y1, mu1, mu2
         c1 = complex(c1)
         x1 = -c1 / 2 + cmath.sqrt(d)
-- 
2.43.0


From 75f32d5c63513d8d18e8d6e92fad1ffe656fb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 35/72] fix: Varma's approximation for (n, k) fork-join was
 negative

---
 most_queue/theory/fj_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 02f97ec..12134d3 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -243,7 +243,7 @@ def get_v1_varma_nk(l, mu, n, k):
 
     for i in range(k, n + 1):
         summ += get_W(n, k, i) * (get_Hn(i) +
-                                  (get_V(i) - get_Hn(i) * ro)) / (l - mu)
+                                  (get_V(i) - get_Hn(i)) * ro) / (mu - l)
 
     return summ
 
-- 
2.43.0


From 7c2620547205504a68972c071bb6350da0561c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:43 +0000
Subject: [PATCH 36/72] fix: network calculator gives each class the sojourn of
 its own priority

---
 most_queue/theory/network_calc.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index d91ab1d..85df6f8 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -119,12 +119,12 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     l_order = []
 
     for m in range(nodes):
-        b_order.append([])
-        l_order.append([])
+        b_order.append([[]] * k_num)
+        l_order.append([0.0] * k_num)
         for k in range(k_num):
-            order = nodes_prty[m][k]
-            b_order[m].append(b[order][m])
-            l_order[m].append(intensities[order][m])
+            order = nodes_prty[m][k]  # приоритет класса k в узле m
+            b_order[m][order] = b[k][m]
+            l_order[m][order] = intensities[k][m]
 
     res['v_node'] = []
     for i in range(nodes):
@@ -136,13 +136,11 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
         for j in range(4):
             for k in range(k_num):
-                b_sr[j] += b_order[i][k][j]
-            b_sr[j] /= k_num
+                b_sr[j] += l_order[i][k] * b_order[i][k][j] / l_sum
 
         res['loads'][i] = l_sum * b_sr[0] / n[i]
-        res['v_node'].append(get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i]))
-        for k in range(k_num):
-            res['v_node'][i][nodes_prty[i][k]] = res['v_node'][i][k]
+        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
+        res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     h = 0.0001
     s = [0.0] * 4
-- 
2.43.0


From 63f6c8217919817abea5e47355842eff8f8df12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 37/72] fix: M/H2/n with warm-up waited too little when cold
 and mixed up service phases

---
 most_queue/theory/m_h2_h2warm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/most_queue/theory/m_h2_h2warm.py b/most_queue/theory/m_h2_h2warm.py
index 366db25..89b20ee 100755
--- a/most_queue/theory/m_h2_h2warm.py
+++ b/most_queue/theory/m_h2_h2warm.py
@@ -178,6 +178,10 @@ class Mh2h2Warm:
         # вероятности попадания в состояния обслуживания, вычисляются с помощью биноминального распределения
         probs = calc_binom_probs(self.n + 1, self.y[0])
 
+        # Если заявка попала в пустую холодную систему, ей придется подождать весь разогрев
+        for i in range(2):
+            w += self.Y[0][0, 0] * self.y_w[i] * self.pls(self.mu_w[i], s)
+
         # Если заявка попала в фазу разогрева, хотя каналы свободны,
         # ей придется подождать окончание разогрева
         for k in range(1, self.n):
@@ -195,18 +199,16 @@ class Mh2h2Warm:
                  range(self.n + 1)])
 
             P = self.calc_down_probs(k)
-            Pa = np.transpose(self.matrix_pow(P * a, k - self.n))  # n+1 x n+1
-
-            aP_tilda = a * probs
+            # обслуживание в каждом состоянии, затем переход на ярус ниже
+            aPa = np.dot(self.matrix_pow(a[:, None] * P, k - self.n), a)
 
-            pls_service_total = sum(np.dot(aP_tilda, Pa))
+            pls_service_total = np.dot(probs, aPa)
 
             for i in range(2):
                 w += self.Y[k][0, i] * self.pls(self.mu_w[i], s) * pls_service_total
 
             # попала в фазу обслуживания
             Ys = [self.Y[k][0, i + 2] for i in range(len(probs))]
-            aPa = np.dot(a, Pa)
             for i in range(self.n + 1):
                 w += Ys[i] * aPa[i]
 
-- 
2.43.0


From 19dd66b14424c68a86b0d224d2a76a736824245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:47 +0000
Subject: [PATCH 38/72] fix: three-class M/M/2 calculator served no low-class
 job beside one high-class job and mixed up busy period moments

---
 most_queue/theory/mmn3_pnz_cox_approx.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/mmn3_pnz_cox_approx.py b/most_queue/theory/mmn3_pnz_cox_approx.py
index 4f2909b..b2eeeaf 100755
--- a/most_queue/theory/mmn3_pnz_cox_approx.py
+++ b/most_queue/theory/mmn3_pnz_cox_approx.py
@@ -143,12 +143,12 @@ class Mmn3_pnz_cox:
         for j in range(6):
             self.busy_periods.append([0, 0, 0])
         for r in range(3):
-            self.busy_periods[0][r] = pass_time.Gr[2][r][3, 1]
-            self.busy_periods[1][r] = pass_time.Gr[2][r][3, 0]
-            self.busy_periods[2][r] = pass_time.Gr[2][r][2, 1]
-            self.busy_periods[3][r] = pass_time.Gr[2][r][2, 0]
-            self.busy_periods[4][r] = pass_time.Gr[2][r][0, 1]
-            self.busy_periods[5][r] = pass_time.Gr[2][r][0, 0]
+            self.busy_periods[0][r] = pass_time.Z[2][r][3, 1]
+            self.busy_periods[1][r] = pass_time.Z[2][r][3, 0]
+            self.busy_periods[2][r] = pass_time.Z[2][r][2, 1]
+            self.busy_periods[3][r] = pass_time.Z[2][r][2, 0]
+            self.busy_periods[4][r] = pass_time.Z[2][r][0, 1]
+            self.busy_periods[5][r] = pass_time.Z[2][r][0, 0]
 
         for j in range(6):
             coev = math.sqrt(self.busy_periods[j][1].real - pow(self.busy_periods[j][0].real, 2)) / \
@@ -335,9 +335,10 @@ class Mmn3_pnz_cox:
             output = self.B[2]
             return output
 
-        # Матрица B - диагональная. Количество ненулевых элементов = 2. Остальные 13 - нулевые
+        # Матрица B - диагональная. Количество ненулевых элементов = 3. Остальные 12 - нулевые
         output[0, 0] = min(2, num) * self.mu_L
         output[1, 1] = self.mu_L
+        output[2, 2] = self.mu_L
 
         return output
 
-- 
2.43.0


From a7858ed445046946afa5d52f8e092639b64d7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 39/72] fix: H2 fit near exponential and Erlang-2 moments keeps
 the mean, so loads stay real

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 06cdccb..830a740 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -285,7 +285,7 @@ class H2_dist:
                           " e = {1:5.3f}.".format(coev, e))
                 f = []
                 for i in range(len(moments)):
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * e))
 
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
@@ -302,7 +302,7 @@ class H2_dist:
                     # if i == 0:
                     #     f.append(moments[0])
                     # else:
-                    f.append(moments[i] * complex(1, (i + 1) * e))
+                    f.append(moments[i] * complex(1, i * e))
                 return H2_dist.get_params_clx(f, verbose=verbose, ee=ee, e=e * (1.0 + e_percent), e_percent=e_percent,
                                               is_fitting=is_fitting)
 
-- 
2.43.0


From 0a9b78336504ce56268eda495b984185451fdfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 40/72] fix: M/M/n two-class calculator iterates until every
 level has converged

---
 most_queue/theory/mmn_prty_pnz_approx.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/most_queue/theory/mmn_prty_pnz_approx.py b/most_queue/theory/mmn_prty_pnz_approx.py
index 4dece6b..ab62198 100755
--- a/most_queue/theory/mmn_prty_pnz_approx.py
+++ b/most_queue/theory/mmn_prty_pnz_approx.py
@@ -159,14 +159,10 @@ class MMn_PRTY_PNZ_Cox_approx:
         """
         self.b1[0][0, 0] = 0
         self.b2[0][0, 0] = 0
-        x_max1 = 0
-        x_max2 = 0
         self.n_iter_ = 0
-        for i in range(self.N):
-            if self.x[i] > x_max1:
-                x_max1 = self.x[i]
-        while math.fabs(x_max2.real - x_max1.real) >= self.e1:
-            x_max2 = x_max1
+        x_change = float('inf')
+        while x_change >= self.e1:
+            x_old = list(self.x)
             self.n_iter_ += 1
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
@@ -198,11 +194,7 @@ class MMn_PRTY_PNZ_Cox_approx:
             self.t[0] = np.dot(self.x[0], t1B1)
             self.t[0] = np.dot(self.t[0], np.linalg.inv(self.D[0] - self.C[0]))
 
-            x_max1 = 0
-
-            for i in range(self.N):
-                if self.x[i] > x_max1:
-                    x_max1 = self.x[i]
+            x_change = max(abs(self.x[i] - x_old[i]) for i in range(self.N))
 
         self.calculate_p()
         self.calculate_y()
-- 
2.43.0


From 3e6e197564f26d2ed4e0dbf152073cb2d7018ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 41/72] fix: moments of a maximum do not depend on the unit of
 time or fail for zero delay

---
 most_queue/theory/fj_calc.py | 45 +++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/most_queue/theory/fj_calc.py b/most_queue/theory/fj_calc.py
index 12134d3..8d9c414 100755
--- a/most_queue/theory/fj_calc.py
+++ b/most_queue/theory/fj_calc.py
@@ -42,6 +42,11 @@ def getMaxMoments(n, b, num=None):
     f = [0] * num
     variance = b[1] - b[0] * b[0]
     coev = math.sqrt(variance) / b[0]
+
+    # узлы квадратуры фиксированы: приводим СВ к масштабу времени, в котором они точны
+    scale = get_quadrature_scale(b)
+    b = [b[i] * math.pow(scale, i + 1) for i in range(len(b))]
+
     a_big = [1.37793470540E-1, 7.29454549503E-1, 1.808342901740E0,
              3.401433697855E0, 5.552496140064E0, 8.330152746764E0,
              1.1843785837900E1, 1.6279257831378E1, 2.1996585811981E1,
@@ -85,7 +90,15 @@ def getMaxMoments(n, b, num=None):
 
     for i in range(num - 1):
         f[i + 1] *= (i + 2)
-    return f
+    return [f[i] / math.pow(scale, i + 1) for i in range(num)]
+
+
+def get_quadrature_scale(b):
+    """
+    Масштаб времени, в котором среднее СВ с начальными моментами b соответствует узлам квадратуры
+    """
+    coev = math.sqrt(b[1] - b[0] * b[0]) / b[0]
+    return 2.0 / (b[0] * max(1.0, coev))
 
 
 def getMaxMomentsDelta(n, b, num=3, delta=0):
@@ -106,21 +119,27 @@ def getMaxMomentsDelta(n, b, num=3, delta=0):
          2.82592334960E-5, 4.24931398496E-7, 1.83956482398E-9,
          9.91182721961E-13]
 
-    if delta:
-        params = Gamma.get_mu_alpha(b)
+    scale = get_quadrature_scale(b)
+    b = [b[i] * math.pow(scale, i + 1) for i in range(len(b))]
+    if isinstance(delta, list):
+        delta = [delta[i] * math.pow(scale, i + 1) for i in range(len(delta))]
+    else:
+        delta = delta * scale
 
-        for j in range(10):
-            p = g[j] * dfr_Gamma_Mult(params, a_big[j],
-                                      n, delta) * math.exp(a_big[j])
-            f[0] += p
-            for i in range(1, num):
-                p = p * a_big[j]
-                f[i] += p
+    params = Gamma.get_mu_alpha(b)
+
+    for j in range(10):
+        p = g[j] * dfr_Gamma_Mult(params, a_big[j],
+                                  n, delta) * math.exp(a_big[j])
+        f[0] += p
+        for i in range(1, num):
+            p = p * a_big[j]
+            f[i] += p
 
-        for i in range(num - 1):
-            f[i + 1] *= (i + 2)
+    for i in range(num - 1):
+        f[i + 1] *= (i + 2)
 
-    return f
+    return [f[i] / math.pow(scale, i + 1) for i in range(num)]
 
 
 # вспомогательные функции:
-- 
2.43.0


From da0502cd0f824e0ee67d29fa1c0b9e31956d350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 42/72] fix: H2 fit keeps the mean for any unit of time, near
 exponential moments and low third moments

---
 most_queue/rand_distribution.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 830a740..16e0785 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -223,6 +223,8 @@ class H2_dist:
         v = moments[1] - moments[0] * moments[0]
         v = math.sqrt(v) / moments[0]
         res = [0.0] * 3
+        if math.isclose(v, 1.0, rel_tol=1e-9):
+            v = 1.0
         if v < 1.0:
             return res
 
@@ -234,21 +236,17 @@ class H2_dist:
         if t_min > moments[2]:
             # one phase distibution
             q_new = q_max
-            mu1 = (1.0 - math.sqrt(q_new * (v * v - 1.0) / (2 * (1.0 - q_new)))) * moments[0]
-            if math.isclose(mu1, 0):
-                mu1 = 1e10
-            else:
-                mu1 = 1.0 / mu1
+            mu1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
             res[0] = q_max
-            res[1] = mu1
-            res[2] = 1e6
+            res[1] = 1.0 / mu1
+            res[2] = 1e16 / moments[0]
             return res
         else:
             max_iteration = 10000
             tec = 0
             t1 = 0
             t2 = 0
-            while abs(tn - moments[2]) > 1e-8 and tec < max_iteration:
+            while abs(tn - moments[2]) > 1e-9 * moments[2] and tec < max_iteration:
                 tec += 1
                 q_new = (q_max + q_min) / 2.0
                 t1 = (1.0 + math.sqrt((1.0 - q_new) * (v * v - 1.0) / (2 * q_new))) * moments[0]
-- 
2.43.0


From 57a827324ad91bd40307a5c7ddef33f28fa229e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 43/72] fix: Cox fit recognises exponential moments relative to
 the unit of time

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 16e0785..2b25422 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -442,7 +442,7 @@ class Cox_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee:
+            if abs(moments[1] - moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
@@ -456,7 +456,7 @@ class Cox_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee:
+            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-- 
2.43.0


From 6fff6b80d58f0c97276cef9a09486e1559432e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 44/72] fix: H2 fit returns the phase probability its rates
 were computed for

---
 most_queue/rand_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 2b25422..0f7ab8c 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -258,7 +258,7 @@ class H2_dist:
                     q_min = q_new
                 else:
                     q_max = q_new
-            res[0] = q_max
+            res[0] = q_new
             res[1] = 1.0 / t1
             res[2] = 1.0 / t2
             return res
-- 
2.43.0


From 626478ed84ebfed9a9bd5c84325bc8829d50ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 45/72] fix: load of a system with several classes sums the
 load of each class

---
 most_queue/sim/priority_queue_sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 063fe53..66c0dda 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -179,10 +179,11 @@ class PriorityQueueSimulator:
         """
         Вычисляет коэффициент загрузки СМО
         """
-        l_sum = 0
-        b1_sr = 0
+        load = 0
 
         for i in range(self.k):
+            l_sum = 0
+            b1_sr = 0
 
             if self.sources_params[i]['type'] == "M":
                 l_sum += self.sources_params[i]['params']
@@ -273,7 +274,9 @@ class PriorityQueueSimulator:
                     k = self.servers_params[i]['params'][1]
                     b1_sr += a * k / (a - 1)
 
-        return l_sum * b1_sr / (self.n * self.k)
+            load += l_sum * b1_sr / self.n
+
+        return load
 
     def arrival(self, k, moment=None, ts=None):
         """
-- 
2.43.0


From 35413ad07226c4aeece47fd066e1661644ae0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 46/72] fix: load of normally distributed intervals and
 services is not zero

---
 most_queue/sim/priority_queue_sim.py       | 4 ++--
 most_queue/sim/utils/distribution_utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index 66c0dda..cb71378 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -221,7 +221,7 @@ class PriorityQueueSimulator:
                     k = self.sources_params[i]['params'][1]
                     f1 = a * k / (a - 1)
                     l_sum += 1.0 / f1
-            elif self.sources_params[i]['type'] == "Uniform":
+            elif self.sources_params[i]['type'] in ("Uniform", "Norm"):
                 f1 = self.sources_params[i]['params'][0]
                 l_sum += 1.0 / f1
 
@@ -251,7 +251,7 @@ class PriorityQueueSimulator:
                 mu = self.servers_params[i]['params'][1]
                 b1_sr += r / mu
 
-            elif self.servers_params[i]['type'] == "Uniform":
+            elif self.servers_params[i]['type'] in ("Uniform", "Norm"):
                 f1 = self.servers_params[i]['params'][0]
                 b1_sr += f1
 
diff --git a/most_queue/sim/utils/distribution_utils.py b/most_queue/sim/utils/distribution_utils.py
index 5622303..70e06e2 100644
--- a/most_queue/sim/utils/distribution_utils.py
+++ b/most_queue/sim/utils/distribution_utils.py
@@ -91,7 +91,7 @@ def calc_qs_load(source_types: str, source_params,
         l = source_params
     elif source_types == "D":
         l = 1.00 / source_params
-    elif source_types == "Uniform":
+    elif source_types in ("Uniform", "Norm"):
         l = 1.00 / source_params[0]
     elif source_types == "H":
         y1 = source_params[0]
@@ -134,7 +134,7 @@ def calc_qs_load(source_types: str, source_params,
         b1 = 1.0 / mu
     elif server_types == "D":
         b1 = server_params
-    elif server_types == "Uniform":
+    elif server_types in ("Uniform", "Norm"):
         b1 = server_params[0]
 
     elif server_types == "H":
-- 
2.43.0


From dc4ca119175e469ca6f2a56af3fd7592f0ec1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 47/72] fix: load of a system with batch arrivals counts the
 jobs of a batch

---
 most_queue/sim/batch_sim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/most_queue/sim/batch_sim.py b/most_queue/sim/batch_sim.py
index 029de6a..35b1e11 100755
--- a/most_queue/sim/batch_sim.py
+++ b/most_queue/sim/batch_sim.py
@@ -35,6 +35,14 @@ class QueueingSystemBatchSim(QueueingSystemSimulator):
             summ += p
             self.batch_cdf.append(summ)
 
+    def calc_load(self):
+        """
+        Calculates the load factor of the QS: every batch brings its mean number of jobs
+        """
+
+        mean_batch = sum((i + 1) * p for i, p in enumerate(self.batch_prob))
+        return super().calc_load() * mean_batch
+
     def arrival(self):
         """
         Actions upon arrival of job to QS
-- 
2.43.0


From bf74ff34478e2a8b5d2f54b0c1f3dd44e13e038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 48/72] fix: network calculator accepts nodes that a class or
 every class passes by

---
 most_queue/theory/network_calc.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 85df6f8..2e3db85 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -113,7 +113,7 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
     intensities = []
 
     for k in range(k_num):
-        intensities.append(balance_equation(L[k], R[k]))
+        intensities.append([l if l > 1e-12 * L[k] else 0.0 for l in balance_equation(L[k], R[k])])
 
     b_order = []
     l_order = []
@@ -132,14 +132,23 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
         for k in range(k_num):
             l_sum += l_order[i][k]
 
-        b_sr = [0.0] * 4
+        # классы, не посещающие узел, в расчете узла не участвуют
+        visiting = [k for k in range(k_num) if l_order[i][k] > 0]
+        v_order = [[0.0] * 3 for k in range(k_num)]
 
-        for j in range(4):
-            for k in range(k_num):
-                b_sr[j] += l_order[i][k] * b_order[i][k][j] / l_sum
+        if visiting:
+            b_sr = [0.0] * 4
+
+            for j in range(4):
+                for k in visiting:
+                    b_sr[j] += l_order[i][k] * b_order[i][k][j] / l_sum
+
+            res['loads'][i] = l_sum * b_sr[0] / n[i]
+            v_visiting = get_v_prty_invar([l_order[i][k] for k in visiting], [b_order[i][k] for k in visiting],
+                                          n[i], prty[i])
+            for k, v in zip(visiting, v_visiting):
+                v_order[k] = v
 
-        res['loads'][i] = l_sum * b_sr[0] / n[i]
-        v_order = get_v_prty_invar(l_order[i], b_order[i], n[i], prty[i])
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
     h = 0.0001
@@ -168,12 +177,15 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
         gamma_mu_alpha = []
         for i in range(nodes):
-            gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
+            if intensities[k][i] > 0:
+                gamma_mu_alpha.append(Gamma.get_mu_alpha([res['v_node'][i][k][0], res['v_node'][i][k][1]]))
+            else:
+                gamma_mu_alpha.append(None)
 
         g_PLS = []
         for i in range(4):
             for j in range(nodes):
-                N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i])
+                N[j, j] = Gamma.get_pls(*gamma_mu_alpha[j], s[i]) if gamma_mu_alpha[j] else 1.0
             G = np.dot(N, Q)
             FF = I - G
             F = np.linalg.inv(FF)
-- 
2.43.0


From 21d82e4ebe599d3b8cd3ec94af172e01b371a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 49/72] fix: an interrupted job keeps its place in the order of
 arrival of its class

---
 most_queue/sim/priority_queue_sim.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/most_queue/sim/priority_queue_sim.py b/most_queue/sim/priority_queue_sim.py
index cb71378..8c7fd8f 100755
--- a/most_queue/sim/priority_queue_sim.py
+++ b/most_queue/sim/priority_queue_sim.py
@@ -363,12 +363,12 @@ class PriorityQueueSimulator:
 
                             is_found_weekier = True
                             if moment:
-                                self.queue[dropped_tsk.in_node_class_num].append(
-                                    dropped_tsk)
+                                self.return_to_queue(
+                                    dropped_tsk.in_node_class_num, dropped_tsk)
                                 c.start_service(
                                     new_tsk, self.ttek, is_network=True)
                             else:
-                                self.queue[dropped_tsk.k].append(dropped_tsk)
+                                self.return_to_queue(dropped_tsk.k, dropped_tsk)
                                 c.start_service(new_tsk, self.ttek)
 
                             break
@@ -423,6 +423,15 @@ class PriorityQueueSimulator:
                     self.start_ppnz = self.ttek
                     self.class_ppnz_started = k
 
+    def return_to_queue(self, k, tsk):
+        """
+        Прерванная заявка занимает в очереди своего класса место по моменту прибытия
+        """
+        place = 0
+        while place < len(self.queue[k]) and self.queue[k][place].arr_time <= tsk.arr_time:
+            place += 1
+        self.queue[k].insert(place, tsk)
+
     def serving(self, c, is_network=False):
         """
         Дейтсвия по поступлению заявки на обслуживание
-- 
2.43.0


From 7aa6bbce4517a0efb4aa49045a4a5eddc97f8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 50/72] fix: moments of a difference use the moments of the
 difference itself, so GI/M/1 waiting moments are right

---
 most_queue/general_utils/conv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/general_utils/conv.py b/most_queue/general_utils/conv.py
index 076ba21..421f201 100644
--- a/most_queue/general_utils/conv.py
+++ b/most_queue/general_utils/conv.py
@@ -19,6 +19,6 @@ def get_moments_minus(a, b, num=3):
     num = min(num, 3)
     res = [0] * num
     res[0] = a[0] - b[0]
-    res[1] = a[1] - b[1] - 2 * a[0] * b[0]
-    res[2] = a[2] - b[2] - 3 * a[1] * b[0] - 3 * a[0] * b[1]
+    res[1] = a[1] - b[1] - 2 * res[0] * b[0]
+    res[2] = a[2] - b[2] - 3 * res[1] * b[0] - 3 * res[0] * b[1]
     return res
-- 
2.43.0


From e4179cc7207f9fbbbe1e006e8a1377f89be7addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 51/72] fix: second and third waiting moments of the first
 preemptive class in M/G/1

---
 most_queue/theory/priority_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index fd6e0e6..9f9bdcf 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -190,7 +190,7 @@ def calc_pr1(l, b, num=3):
     for i in range(num):
         summ = b[0][i + 1] / (i + 2)
         for s in range(1, i + 1):
-            summ += b[0][i + 1 - s] * w[0][s] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
+            summ += b[0][i + 1 - s] * w[0][s - 1] * math.factorial(i + 1) / (math.factorial(s) * math.factorial(i + 2 - s))
         w[0][i] = summ * l[0] / (1 - l[0] * b[0][0])
 
     v.append([0.0] * num)
-- 
2.43.0


From bad2e11a1607e2291dfe393386d77575cd412fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 52/72] fix: M/G/1 preemptive waiting moments account for the
 interruptions' dependence on the service

---
 most_queue/theory/priority_calc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 9f9bdcf..3b142a5 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -247,10 +247,16 @@ def calc_pr1(l, b, num=3):
     w_with_pr = []
     for j in range(num_of_cl):
         w_with_pr.append([0.0] * 3)
-        w_with_pr[j][0] = v[j][0] - b[j][0]
-        w_with_pr[j][1] = v[j][1] - 2 * w_with_pr[j][0] * b[j][0] - b[j][1]
+        # the interruptions: busy periods of the higher classes, starting at their rate during the service
+        z = [0.0] * 3
+        if j > 0:
+            z = [L[j - 1] * pi_j[j - 1][i] for i in range(min(num, 3))]
+        w_with_pr[j][0] = w[j][0] + b[j][0] * z[0]
+        d2 = b[j][0] * z[1] + b[j][1] * z[0] ** 2
+        w_with_pr[j][1] = w[j][1] + 2 * w[j][0] * b[j][0] * z[0] + d2
         if num > 2:
-            w_with_pr[j][2] = v[j][2] - 3 * w_with_pr[j][1] * b[j][0] - 3 * w_with_pr[j][0] * b[j][1] - b[j][2]
+            d3 = b[j][0] * z[2] + 3 * b[j][1] * z[1] * z[0] + b[j][2] * z[0] ** 3
+            w_with_pr[j][2] = w[j][2] + 3 * w[j][1] * b[j][0] * z[0] + 3 * w[j][0] * d2 + d3
     res['w_with_pr'] = w_with_pr
     res['pnz'] = pi_j
 
-- 
2.43.0


From 862f84ffa06204bdd818efe8c8c91a4774eec175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 53/72] fix: M/G/1 preemptive calculator accepts any number of
 service moments

---
 most_queue/theory/priority_calc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index 3b142a5..f113792 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -89,7 +89,7 @@ def ppnz_calc(l, b, num=5):
         pnz.append(chisl / (1 - ro))
     if num > 4:
         chisl = b[4] * math.pow(z, 5) + 10 * b[3] * l * pnz[1] * math.pow(z, 3) + \
-                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2 * z * z]) + b[1] * (
+                b[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) + b[1] * (
                         5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2])
         pnz.append(chisl / (1 - ro))
 
@@ -134,7 +134,7 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
     b: [j], j=1..num, начальные моменты времени обслуживания
     f: [j], нач. моменты распределения времени разогрева
     """
-    num = min(num, len(f))
+    num = min(num, len(f), len(pnz))
 
     pnz_warm_up = []
     z = 1 + l * pnz[0]
@@ -148,8 +148,8 @@ def ppnz_calc_warm_up(l, f, pnz, num=5):
                            + 6 * f[2] * l * pnz[1] * z * z + f[3] * math.pow(z, 4))
     if num > 4:
         pnz_warm_up.append(f[0] * l * pnz[4] + f[1] * (5 * l * pnz[3] * z + 10 * l * l * pnz[1] * pnz[2]) +
-                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[
-            4] * math.pow(z, 5)))
+                           f[2] * (15 * math.pow(l * pnz[1], 2) * z + 10 * l * pnz[2] * z * z) +
+                           10 * f[3] * l * pnz[1] * math.pow(z, 3) + f[4] * math.pow(z, 5))
 
     return pnz_warm_up
 
-- 
2.43.0


From 84f09403c3e3269fbcd35bbe41b7935e2ed9f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:11 +0000
Subject: [PATCH 54/72] fix: Klimov's second moments of the wait in M/G/1 with
 preemption

---
 most_queue/theory/priority_calc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index f113792..a38e731 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -111,15 +111,14 @@ def climov_w_pr_calc(l, b):
         ro_k[k] = 1 - ro_k_j[k][0]
     for k in range(k_num):
         w.append([0.0] * 2)
-        if k != 0:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + (ro_k_j[k][2]) / (
-                    2 * math.pow(ro_k[k], 2)) + \
-                      (ro_k_j[k][1]) / (2 * ro_k[k])
+        if k == 0:
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
+                    2 * math.pow(ro_k[k], 2))
 
         else:
-            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k])
-            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 3) * ro_k[k]) + (ro_k_j[k][2] * ro_k_j[k - 1][1]) / (
+            w[k][0] = ro_k_j[k][1] / (2 * ro_k[k - 1] * ro_k[k])
+            w[k][1] = ro_k_j[k][2] / (3 * math.pow(ro_k[k - 1], 2) * ro_k[k]) + math.pow(ro_k_j[k][1], 2) / (
                     2 * math.pow(ro_k[k - 1], 2) * math.pow(ro_k[k], 2)) + \
                       (ro_k_j[k][1] * ro_k_j[k - 1][1]) / (2 * math.pow(ro_k[k - 1], 3) * ro_k[k])
 
-- 
2.43.0


From 496342fc5a2e7429847df75ea71e3f88b17cb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 55/72] fix: exact waiting-time moments in the non-preemptive
 M/G/1 queue, in any unit of time

---
 most_queue/theory/priority_calc.py | 71 +++++++++++++++---------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/most_queue/theory/priority_calc.py b/most_queue/theory/priority_calc.py
index a38e731..6bb7f74 100755
--- a/most_queue/theory/priority_calc.py
+++ b/most_queue/theory/priority_calc.py
@@ -1,7 +1,6 @@
 import math
 
 from most_queue.rand_distribution import Gamma
-from most_queue.theory.utils.diff5dots import diff5dots
 
 from most_queue.theory.mg1_calc import get_w
 from most_queue.theory.mgn_tt import MGnCalc
@@ -352,6 +351,24 @@ def get_w_np(l, b, num=3):
             summ += l[s]
         L.append(summ)
 
+    # power series of the transforms of the laws given by their moments
+    order = 4
+
+    def series(moments):
+        if len(moments) < order:
+            moments = list(moments) + Gamma.calc_theory_moments(*Gamma.get_mu_alpha(moments), order)[len(moments):]
+        return [1.0] + [moments[m] * (-1.0) ** (m + 1) / math.factorial(m + 1) for m in range(order)]
+
+    def multiply(x, y):
+        return [sum(x[m] * y[i - m] for m in range(i + 1)) for i in range(order + 1)]
+
+    def substitute(x, y):
+        res = [0.0] * (order + 1)
+        for coeff in reversed(x):
+            res = multiply(res, y)
+            res[0] += coeff
+        return res
+
     for j in range(num_of_cl):
         w.append([])
         w[j] = [0.0] * (len(b[j]) - 1)
@@ -387,47 +404,29 @@ def get_w_np(l, b, num=3):
                     summ += l[i] * b[i][m]
                 b_b[m] = summ / lb
 
-        h = 0.0001
-        steps = 5
+        # s + la - la * nu_a(s)
+        summ = [0.0, 1.0] + [0.0] * (order - 1)
+        if j != 0:
+            nu_a = series(ppnz_calc(la, b_a))
+            for m in range(1, order + 1):
+                summ[m] -= la * nu_a[m]
 
+        chisl = [(1 - ro) * x for x in summ]
         if j != num_of_cl - 1:
-            b_b_param = Gamma.get_mu_alpha(b_b)
-        else:
-            b_b_param = 0
-
-        b_k_param = Gamma.get_mu_alpha(b[j])
+            beta_b = substitute(series(b_b), summ)
+            for m in range(1, order + 1):
+                chisl[m] -= lb * beta_b[m]
 
-        nu_a_PNZ = ppnz_calc(la, b_a)
-
-        if j != 0:
-            nu_a_param = Gamma.get_mu_alpha(nu_a_PNZ)
-        else:
-            nu_a_param = 0
+        znam = [l[j] * x for x in substitute(series(b_i), summ)]
+        znam[1] += 1.0
 
+        # both the numerator and the denominator start with the first power of s
         w_pls = []
+        for i in range(order):
+            rest = sum(w_pls[m] * znam[i + 1 - m] for m in range(i))
+            w_pls.append((chisl[i + 1] - rest) / znam[1])
 
-        for c in range(1, steps):
-            s = h * c
-
-            if j != 0:
-                nu_a = Gamma.get_pls(*nu_a_param, s)
-                summ = s + la - la * nu_a
-            else:
-                summ = s
-
-            chisl = (1 - ro) * summ
-
-            if j != len(l) - 1:
-                chisl += lb * (1 - Gamma.get_pls(*b_b_param, summ))
-
-            znam = l[j] * Gamma.get_pls(*b_k_param, summ) - l[j] + s
-
-            w_pls.append(chisl / znam)
-
-            w[j] = diff5dots(w_pls, h)
-            w[j][0] = -w[j][0]
-            if len(b[j]) > 2:
-                w[j][2] = -w[j][2]
+        w[j] = [w_pls[m] * (-1.0) ** m * math.factorial(m) for m in range(1, order)]
 
     return w
 
-- 
2.43.0


From 9526b51858431e8979bad3686d0765e5f3bcd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 56/72] fix: waiting-time moments of GI/M/n in any unit of time

---
 most_queue/theory/gi_m_n_calc.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/most_queue/theory/gi_m_n_calc.py b/most_queue/theory/gi_m_n_calc.py
index d422802..0f55076 100755
--- a/most_queue/theory/gi_m_n_calc.py
+++ b/most_queue/theory/gi_m_n_calc.py
@@ -3,7 +3,6 @@ import math
 import numpy as np
 
 from most_queue.general_utils.conv import get_moments
-from most_queue.theory.utils.diff5dots import diff5dots
 from most_queue.rand_distribution import Gamma, Pareto_dist
 
 
@@ -83,17 +82,10 @@ def get_w_pls(n, mu, pn, w, s):
 def get_w(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
     pi = get_pi(a, mu, n, num, e, approx_distr)
     pn = pi[n]
-    pls = []
     w_param = get_w_param(a, mu, n, e, approx_distr)
-    h = 0.001
-    s = 0
-    for i in range(5):
-        pls.append(get_w_pls(n, mu, pn, w_param, s))
-        s += h
-    w = diff5dots(pls, h)
-    w[0] = - w[0]
-    w[2] = - w[2]
-    return w
+    # derivatives of get_w_pls at zero
+    v = n * mu * (1.0 - w_param)
+    return [math.factorial(k) * n * mu * pn / pow(v, k + 1) for k in range(1, 4)]
 
 
 def get_p(a, mu, n, num=100, e=1e-10, approx_distr="Gamma"):
-- 
2.43.0


From b0d79fa30feb6a76945c7e8715a795f5bf029198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 57/72] fix: exact sojourn-time moments of M/G/1 with warm-up,
 in any unit of time

---
 most_queue/theory/mg1_warm_calc.py | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/most_queue/theory/mg1_warm_calc.py b/most_queue/theory/mg1_warm_calc.py
index ec1ad83..443b0d5 100755
--- a/most_queue/theory/mg1_warm_calc.py
+++ b/most_queue/theory/mg1_warm_calc.py
@@ -1,4 +1,5 @@
-from most_queue.theory.utils.diff5dots import diff5dots
+import math
+
 from most_queue.rand_distribution import Gamma
 
 
@@ -6,24 +7,23 @@ def get_v(l, b, b_warm):
     tv = b_warm[0] / (1 - l * b[0])
     p0_star = 1 / (1 + l * tv)
 
-    b_param = Gamma.get_mu_alpha(b)
-    b_warm_param = Gamma.get_mu_alpha(b_warm)
-
-    h = 0.0001
-    steps = 5
-
-    v_pls = []
-
-    for c in range(1, steps):
-        s = h * c
-        chisl = p0_star * ((1 - s / l) * Gamma.get_pls(*b_warm_param, s) - Gamma.get_pls(*b_param, s))
-        znam = 1 - s / l - Gamma.get_pls(*b_param, s)
-        v_pls.append(chisl / znam)
+    # power series of the transforms of the two laws, given by their moments
+    order = 4
 
-    v = diff5dots(v_pls, h)
-    v[0] = -v[0]
-    v[2] = -v[2]
+    def series(moments):
+        if len(moments) < order:
+            moments = list(moments) + Gamma.calc_theory_moments(*Gamma.get_mu_alpha(moments), order)[len(moments):]
+        return [1.0] + [moments[m] * (-1.0) ** (m + 1) / math.factorial(m + 1) for m in range(order)]
 
-    return v
+    b_pls = series(b)
+    b_warm_pls = series(b_warm)
 
+    # both the numerator and the denominator start with the first power of s
+    v_pls = []
+    for i in range(order):
+        chisl = p0_star * (b_warm_pls[i + 1] - b_warm_pls[i] / l - b_pls[i + 1])
+        for m in range(i):
+            chisl += v_pls[m] * b_pls[i + 1 - m]
+        v_pls.append(chisl / (-1.0 / l - b_pls[1]))
 
+    return [v_pls[m] * (-1.0) ** m * math.factorial(m) for m in range(1, order)]
-- 
2.43.0


From e7f31a9caf5996d5509e13a3b27aa6f2f8cd3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 58/72] fix: differentiate the network sojourn time at zero
 with a step relative to its mean

---
 most_queue/theory/network_calc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/most_queue/theory/network_calc.py b/most_queue/theory/network_calc.py
index 2e3db85..6711be8 100755
--- a/most_queue/theory/network_calc.py
+++ b/most_queue/theory/network_calc.py
@@ -151,11 +151,6 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
 
         res['v_node'].append([v_order[nodes_prty[i][k]] for k in range(k_num)])
 
-    h = 0.0001
-    s = [0.0] * 4
-    for i in range(4):
-        s[i] = h * (i + 1)
-
     for k in range(k_num):
         I = np.zeros((nodes, nodes))
         for i in range(nodes):
@@ -182,6 +177,11 @@ def network_prty_calc(R, b, n, L, prty, nodes_prty):
             else:
                 gamma_mu_alpha.append(None)
 
+        # the step follows the unit of time: it is relative to the mean sojourn time in the network
+        v1 = sum(intensities[k][i] * res['v_node'][i][k][0] for i in range(nodes)) / L[k]
+        h = 0.0001 / v1
+        s = [h * i for i in range(4)]
+
         g_PLS = []
         for i in range(4):
             for j in range(nodes):
-- 
2.43.0


From 9ff891854685cf388ce41e655fbc2d7fb806f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:15 +0000
Subject: [PATCH 59/72] fix: the step of the numerical derivative in M/M/n with
 warm-up and cooling is a rate

---
 most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
index 758b12b..24a44a5 100755
--- a/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
+++ b/most_queue/theory/mmn_with_h2_cold_and_h2_warmup.py
@@ -177,7 +177,7 @@ class MMn_H2warm_H2cold:
 
         for i in range(3):
             min_mu = min(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'), [self.mu]))
-            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 / min_mu, n=i + 1, order=9)
+            w[i] = derivative(self.calc_w_pls, 0, dx=1e-3 * min_mu, n=i + 1, order=9)
         return [-w[0], w[1], -w[2]]
 
     def get_b(self):
-- 
2.43.0


From b59a68935832dcd54e2f44904ec3e91fa5f0688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 60/72] fix: stop the iterations for moments of passage times
 at a relative accuracy

---
 most_queue/theory/utils/passage_time.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/most_queue/theory/utils/passage_time.py b/most_queue/theory/utils/passage_time.py
index 4060e3b..0127ff8 100755
--- a/most_queue/theory/utils/passage_time.py
+++ b/most_queue/theory/utils/passage_time.py
@@ -188,7 +188,7 @@ class passage_time_calc:
         max_elem_pr = 0
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while (abs(max_elem - max_elem_pr) > self.e * abs(max_elem)):
             G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(G, G)) + np.dot(F, np.dot(G1, G)) \
                  + np.dot(F, np.dot(G, G1))
             max_elem_pr = max_elem
@@ -218,7 +218,7 @@ class passage_time_calc:
         max_elem_pr = 0
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while (abs(max_elem - max_elem_pr) > self.e * abs(max_elem)):
             G2 = B2 + np.dot(L2, G) + 2 * np.dot(L1, G1) + np.dot(L, G2) \
                  + np.dot(F2, np.dot(G, G)) + \
                  2 * np.dot(F1, (np.dot(G1, G) + np.dot(G, G1))) \
@@ -246,7 +246,7 @@ class passage_time_calc:
         max_elem_pr = 0
         n_iter = 0
 
-        while (abs(max_elem - max_elem_pr) > self.e):
+        while (abs(max_elem - max_elem_pr) > self.e * abs(max_elem)):
             G3 = B3 + np.dot(L3, G) + 3 * np.dot(L2, G1) + 3 * np.dot(L1, G2) \
                  + np.dot(L, G3) + np.dot(F3, np.dot(G, G)) \
                  + 3 * np.dot(F2, (np.dot(G1, G) + np.dot(G, G1))) + \
@@ -328,7 +328,7 @@ class passage_time_calc:
             max_elem = self.norm_mrx(G1)
             max_elem_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while (abs(max_elem - max_elem_pr) > self.e * abs(max_elem)):
                 G1 = B1 + np.dot(L1, G) + np.dot(L, G1) + np.dot(F1, np.dot(Gplus_one, G)) \
                      + np.dot(F, np.dot(G1plus_one, G)) + np.dot(F, np.dot(Gplus_one, G1))
                 max_elem_pr = max_elem
@@ -351,7 +351,7 @@ class passage_time_calc:
             max_elem = self.norm_mrx(G2)
             max_elem_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while (abs(max_elem - max_elem_pr) > self.e * abs(max_elem)):
                 G2 = B2 + np.dot(L2, G) + 2.0 * np.dot(L1, G1) + np.dot(L, G2) \
                      + np.dot(F2, np.dot(Gplus_one, G)) + 2.0 * np.dot(F1,
                                                                        (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
@@ -377,7 +377,7 @@ class passage_time_calc:
             max_elem = self.norm_mrx(G3)
             max_elem_pr = 0
             n_iter = 0
-            while (abs(max_elem - max_elem_pr) > self.e):
+            while (abs(max_elem - max_elem_pr) > self.e * abs(max_elem)):
                 G3 = B3 + np.dot(L3, G) + 3.0 * np.dot(L2, G1) + 3.0 * np.dot(L1, G2) + np.dot(L, G3) \
                      + np.dot(F3, np.dot(Gplus_one, G)) \
                      + 3.0 * np.dot(F2, (np.dot(G1plus_one, G) + np.dot(Gplus_one, G1))) \
-- 
2.43.0


From edc3ad7d7aedd5ce905805c5114905f5cc32989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 61/72] fix: the step of the numerical derivative in M/G/n with
 warm-up, cooling and delay follows the unit of time

---
 most_queue/theory/mgn_with_h2_delay_cold_warm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/most_queue/theory/mgn_with_h2_delay_cold_warm.py b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
index af5dc87..44cb5d9 100755
--- a/most_queue/theory/mgn_with_h2_delay_cold_warm.py
+++ b/most_queue/theory/mgn_with_h2_delay_cold_warm.py
@@ -306,12 +306,12 @@ class MGnH2ServingColdWarmDelay:
 
         for i in range(3):
             if self.stable_w_pls:
-                max_mu = np.max(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
+                min_mu = np.min(list(chain(np.array(self.mu_w).astype('float'), np.array(self.mu_c).astype('float'),
                                    np.array(self.mu).astype('float'))))
 
-                dx = self.w_pls_dt / max_mu
+                dx = self.w_pls_dt * min_mu
             else:
-                dx = self.w_pls_dt
+                dx = self.w_pls_dt / self.b[0]
             w[i] = derivative(self.calc_w_pls, 0, dx=dx, n=i + 1, order=9)
 
         w = [w_moment.real if isinstance(w_moment, complex) else w_moment for w_moment in w]
-- 
2.43.0


From 46675a009387eeba445af714a744700854add31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 62/72] fix: incomplete gamma function of Pareto laws with a
 whole tail index or with little or much load

---
 most_queue/rand_distribution.py               | 21 ++++++++++++++++++-
 .../theory/utils/q_poisson_arrival_calc.py    |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index 0f7ab8c..fd3cc22 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -899,8 +899,27 @@ class Gamma:
 
     @staticmethod
     def get_gamma_incomplete(x, z, e=1e-12):
+        """
+        Upper incomplete gamma function of z > 0: by a continued fraction when x is not positive
+        """
+        if x > 0:
+            return sp.gamma(x) * sp.gammaincc(x, z)
 
-        return Gamma.get_gamma(x) - Gamma.get_gamma_small(x, z, e)
+        b = z + 1.0 - x
+        c = math.inf
+        d = 1.0 / b
+        fraction = d
+        n = 0
+        while True:
+            n += 1
+            a = -n * (n - x)
+            b += 2.0
+            d = 1.0 / (a * d + b)
+            c = a / c + b
+            fraction *= c * d
+            if math.fabs(c * d - 1.0) < e:
+                break
+        return fraction * math.exp(-z) * pow(z, x)
 
     @staticmethod
     def get_gamma_small(x, z, e=1e-12):
diff --git a/most_queue/theory/utils/q_poisson_arrival_calc.py b/most_queue/theory/utils/q_poisson_arrival_calc.py
index 5cdde05..48db02e 100755
--- a/most_queue/theory/utils/q_poisson_arrival_calc.py
+++ b/most_queue/theory/utils/q_poisson_arrival_calc.py
@@ -49,7 +49,7 @@ def get_q_Pareto(l, alpha, K, num=100):
     q = [0.0] * num
     gammas = [0.0] * num
     z = l * K
-    gammas[0] = Gamma.get_minus_gamma(alpha) - Gamma.get_gamma_small(-alpha, z)
+    gammas[0] = Gamma.get_gamma_incomplete(-alpha, z)
 
     for j in range(1, num):
         gammas[j] = (j - alpha - 1) * gammas[j - 1] + pow(z, j - alpha - 1) * math.exp(-z)
-- 
2.43.0


From 1507afba91aae9fa7b08e169e927ccc0b695d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 63/72] fix: arrival-epoch probabilities of GI/M/1 with other
 than gamma intervals

---
 most_queue/theory/gi_m_1_calc.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/most_queue/theory/gi_m_1_calc.py b/most_queue/theory/gi_m_1_calc.py
index f4d0566..7994236 100755
--- a/most_queue/theory/gi_m_1_calc.py
+++ b/most_queue/theory/gi_m_1_calc.py
@@ -2,7 +2,6 @@ import math
 
 from most_queue.general_utils.conv import get_moments_minus
 from most_queue.rand_distribution import Gamma, Pareto_dist
-from most_queue.theory.utils.q_poisson_arrival_calc import get_q_Gamma
 
 
 def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
@@ -14,15 +13,8 @@ def get_pi(a, mu, num=100, e=1e-10, approx_distr="Gamma"):
     """
     pi = [0.0] * num
 
-    v, alpha = Gamma.get_mu_alpha(a)
-
-    q = get_q_Gamma(mu, v, alpha)
-    summ = 0
     w = get_w_param(a, mu, e, approx_distr)
-    for i in range(len(q)):
-        summ += q[i] * pow(w, i)
-    pi[0] = 1.0 - summ
-    for k in range(1, num):
+    for k in range(num):
         pi[k] = (1.0 - w) * pow(w, k)
     return pi
 
-- 
2.43.0


From 0472f7f45414ff6b432fdde9eb23993893cda6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 64/72] fix: finite buffers in the Takahashi-Takami method:
 last level, any size, waits of the accepted jobs

---
 most_queue/theory/mgn_tt.py | 75 ++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/most_queue/theory/mgn_tt.py b/most_queue/theory/mgn_tt.py
index 334a872..6c97ad6 100755
--- a/most_queue/theory/mgn_tt.py
+++ b/most_queue/theory/mgn_tt.py
@@ -22,7 +22,7 @@ class MGnCalc:
         accuracy: точность, параметр для остановки итерации
         """
         self.dt = np.dtype(dtype)
-        if buffer:
+        if buffer is not None:
             self.R = buffer + n  # максимальное число заявок в сисетеме - очередь + каналы
             self.N = self.R + 1  # число ярусов на один больше + нулевое состояние
         else:
@@ -40,17 +40,17 @@ class MGnCalc:
         self.l = l
         self.mu = [h2_params[1], h2_params[2]]
         # массив cols хранит число столбцов для каждого яруса, удобней рассчитать его один раз:
-        self.cols = [] * N
+        self.cols = [] * self.N
 
         # переменные
         self.t = []
         self.b1 = []
         self.b2 = []
-        self.x = [0.0 + 0.0j] * N
-        self.z = [0.0 + 0.0j] * N
+        self.x = [0.0 + 0.0j] * self.N
+        self.z = [0.0 + 0.0j] * self.N
 
         # искомые вреоятности состояний СМО
-        self.p = [0.0 + 0.0j] * N
+        self.p = [0.0 + 0.0j] * self.N
 
         # матрицы переходов
         self.A = []
@@ -59,7 +59,7 @@ class MGnCalc:
         self.D = []
         self.Y = []
 
-        for i in range(N):
+        for i in range(self.N):
             if i < n + 1:
                 self.cols.append(i + 1)
             else:
@@ -88,6 +88,9 @@ class MGnCalc:
         """
         w = [0.0] * 3
 
+        if self.R is not None:
+            return self.get_w_of_accepted()
+
         for j in range(1, len(self.p) - self.n):
             w[0] += j * self.p[self.n + j]
         for j in range(2, len(self.p) - self.n):
@@ -101,6 +104,24 @@ class MGnCalc:
 
         return w
 
+    def get_w_of_accepted(self):
+        """
+        Waiting moments of the jobs that find room in the buffer: a job that finds j jobs
+        in the queue waits for j + 1 ends of service
+        """
+        stay = np.array([1.0 / ((self.n - i) * self.mu[0] + i * self.mu[1]) for i in range(self.n + 1)])
+        ends = stay[:, None] * self.B[self.n + 1] if self.R > self.n else None
+
+        w = [0.0 + 0.0j] * 3
+        moments = [np.ones(self.n + 1, dtype=self.dt)] + [np.zeros(self.n + 1, dtype=self.dt) for i in range(3)]
+        for j in range(self.n, self.R):
+            for i in range(1, 4):
+                moments[i] = i * stay * moments[i - 1] + np.dot(ends, moments[i])
+                w[i - 1] += np.dot(self.Y[j][0], moments[i])
+
+        accepted = sum(self.p[:self.R])
+        return [(x / accepted).real for x in w]
+
     def get_v(self):
         """
         Возвращает три первых начальных момента времени пребывания в СМО
@@ -193,13 +214,11 @@ class MGnCalc:
                 prod1 = np.dot(prod1, self.x[i])
             znam += np.dot((self.n - j), prod1)
 
-        if self.R:
-            prod2 = 1
-            for i in range(0, self.N):
-                prod2 *= self.x[i]
-            znam -= f1 * self.l * prod2
-
-        self.p[0] = (self.n - self.l * f1) / znam
+        if self.R is not None:
+            # a finite buffer: any load is possible, the scale comes from norm_probs()
+            self.p[0] = 1.0
+        else:
+            self.p[0] = (self.n - self.l * f1) / znam
 
         summ_p = self.p[0]
 
@@ -241,7 +260,7 @@ class MGnCalc:
         for j in range(1, self.N):
             if j != (self.N - 1):
                 self.BG.append(np.dot(self.B[j + 1], self.G[j]))
-            else:
+            elif self.R is None:
                 self.BG.append(np.dot(self.B[j], self.G[j]))
 
     def calc_support_matrices(self):
@@ -272,6 +291,15 @@ class MGnCalc:
 
             for j in range(1, self.N):  # по всем ярусам, кроме первого.
 
+                if j == self.R:
+                    # the last level of a finite buffer is entered only from the level below
+                    tA = np.dot(self.t[j - 1], self.A[j - 1])
+                    tag = np.dot(tA, self.G[j])
+                    self.z[j] = 1.0 / tag.sum()
+                    self.t[j] = self.z[j] * tag
+                    self.x[j - 1] = 1.0 / self.z[j]
+                    continue
+
                 # b':
                 self.b1[j] = np.dot(self.t[j - 1], self.AG[j])
 
@@ -290,19 +318,8 @@ class MGnCalc:
 
                 self.x[j] = (1.0 + 0.0j) / self.x[j]
 
-                if self.R and j == (self.N - 1):
-                    tA = np.dot(self.t[j - 1], self.A[j - 1])
-                    tag = np.dot(tA, self.G[j])
-                    tag_sum = 0
-                    for t_i in range(tag.shape[1]):
-                        tag_sum += tag[0, t_i]
-                    self.z[j] = 1.0 / tag_sum
-                    self.t[j] = self.z[j] * tag
-
-                else:
-
-                    self.z[j] = np.dot(c, self.x[j])
-                    self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
+                self.z[j] = np.dot(c, self.x[j])
+                self.t[j] = np.dot(self.z[j], self.b1[j]) + np.dot(self.x[j], self.b2[j])
 
             self.x[0] = (1.0 + 0.0j) / self.z[1]
 
@@ -432,6 +449,10 @@ class MGnCalc:
 
         output = np.zeros((row, col), dtype=self.dt)
 
+        if num == self.R:
+            # the buffer is full: arrivals are lost and do not change the state
+            is_v_calc = True
+
         if num > self.n:
             if is_v_calc:
                 output = self.buildD(self.n, is_v_calc=True)
-- 
2.43.0


From f127965c687fdab635126c8c45c4c3036ceda150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 65/72] fix: report of the impatience simulator left out
 everything but its last line

---
 most_queue/sim/impatient_queue_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/sim/impatient_queue_sim.py b/most_queue/sim/impatient_queue_sim.py
index 30466eb..c7d1eab 100755
--- a/most_queue/sim/impatient_queue_sim.py
+++ b/most_queue/sim/impatient_queue_sim.py
@@ -151,11 +151,11 @@ class ImpatientQueueSim(QueueingSystemSimulator):
                 self.drop_task(num_of_task_earlier, moment_to_leave_earlier)
 
     def __str__(self, is_short=False):
-        super().__str__(is_short)
+        res = super().__str__(is_short)
         num_of_task_earlier = -1
         moment_to_leave_earlier = float('inf')
         for i, tsk in enumerate(self.queue.queue):
             if tsk.moment_to_leave < moment_to_leave_earlier:
                 moment_to_leave_earlier = tsk.moment_to_leave
                 num_of_task_earlier = i
-        return f'Task {num_of_task_earlier} is earlier to leave at {moment_to_leave_earlier:8.3f}'
+        return res + f'Task {num_of_task_earlier} is earlier to leave at {moment_to_leave_earlier:8.3f}'
-- 
2.43.0


From 6d73cfae4eddb664af7a9d65ddc6d29ec813d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 66/72] fix: report of the fork-join simulator counted the
 parts that wait as none

---
 most_queue/sim/fj_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/most_queue/sim/fj_sim.py b/most_queue/sim/fj_sim.py
index 0e97154..f377010 100755
--- a/most_queue/sim/fj_sim.py
+++ b/most_queue/sim/fj_sim.py
@@ -250,6 +250,7 @@ class ForkJoinSim(QueueingSystemSimulator):
 
             for c in range(self.n):
                 res += str(self.servers[c])
-            res += "\nQueue Count " + str(self.queue.size()) + "\n"
+            waiting = self.queue.size() + sum(len(q) for q in self.queues)
+            res += "\nQueue Count " + str(waiting) + "\n"
 
         return res
-- 
2.43.0


From afd5f3edd304525e3239c11a5789d4b9443443e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 67/72] fix: Student's quantile for samples of 76 to 85 was
 1.001

---
 most_queue/theory/utils/student_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index d9ec551..a047fc6 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -22,7 +22,7 @@ def get_ty(gamma, n):
                  2.26, 2.23, 2.20, 2.18, 2.16,
                  2.15, 2.13, 2.12, 2.11, 2.10,
                  2.093, 2.064, 2.045, 2.032, 2.023,
-                 2.016, 2.009, 2.001, 1.996, 1.001,
+                 2.016, 2.009, 2.001, 1.996, 1.990,
                  1.987, 1.984, 1.980, 1.960]
     gamma_099 = [4.60, 4.03, 3.71, 3.50, 3.36,
                  3.25, 3.17, 3.11, 3.06, 3.01,
-- 
2.43.0


From 6592e73163e72df5794df3a8b4d41eb27ce27126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 68/72] fix: Student's quantiles for samples of 20 to 65 were
 those of larger samples

---
 most_queue/theory/utils/student_stat.py | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/most_queue/theory/utils/student_stat.py b/most_queue/theory/utils/student_stat.py
index a047fc6..96711ca 100755
--- a/most_queue/theory/utils/student_stat.py
+++ b/most_queue/theory/utils/student_stat.py
@@ -46,6 +46,14 @@ def get_ty(gamma, n):
             return gamma_0999[n - 5]
 
     elif n >= 20 and n < 23:
+        if gamma == 0.95:
+            return gamma_095[15]
+        if gamma == 0.99:
+            return gamma_099[15]
+        if gamma == 0.999:
+            return gamma_0999[15]
+
+    elif n >= 23 and n < 28:
         if gamma == 0.95:
             return gamma_095[16]
         if gamma == 0.99:
@@ -53,7 +61,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[16]
 
-    elif n >= 23 and n < 28:
+    elif n >= 28 and n < 33:
         if gamma == 0.95:
             return gamma_095[17]
         if gamma == 0.99:
@@ -61,7 +69,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[17]
 
-    elif n >= 28 and n < 33:
+    elif n >= 33 and n < 38:
         if gamma == 0.95:
             return gamma_095[18]
         if gamma == 0.99:
@@ -69,7 +77,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[18]
 
-    elif n >= 33 and n < 38:
+    elif n >= 38 and n < 43:
         if gamma == 0.95:
             return gamma_095[19]
         if gamma == 0.99:
@@ -77,7 +85,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[19]
 
-    elif n >= 38 and n < 43:
+    elif n >= 43 and n < 48:
         if gamma == 0.95:
             return gamma_095[20]
         if gamma == 0.99:
@@ -85,7 +93,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[20]
 
-    elif n >= 43 and n < 48:
+    elif n >= 48 and n < 56:
         if gamma == 0.95:
             return gamma_095[21]
         if gamma == 0.99:
@@ -93,7 +101,7 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[21]
 
-    elif n >= 48 and n < 56:
+    elif n >= 56 and n < 66:
         if gamma == 0.95:
             return gamma_095[22]
         if gamma == 0.99:
@@ -101,14 +109,6 @@ def get_ty(gamma, n):
         if gamma == 0.999:
             return gamma_0999[22]
 
-    elif n >= 56 and n < 66:
-        if gamma == 0.95:
-            return gamma_095[23]
-        if gamma == 0.99:
-            return gamma_099[23]
-        if gamma == 0.999:
-            return gamma_0999[23]
-
     elif n >= 66 and n < 76:
         if gamma == 0.95:
             return gamma_095[23]
-- 
2.43.0


From 31b8e379decdf4e2b4254f1350d5dd787cc5fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 69/72] fix: Pareto laws have no times below K

---
 most_queue/rand_distribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index fd3cc22..e5bc3c2 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -544,9 +544,9 @@ class Pareto_dist:
         """
         Возвращает значение функции плотности распределения вероятностей СВ
         """
-        if t < 0:
+        if t < k:
             return 0
-        return a * math.pow(k, a) / math.pow(t, a + 1)
+        return a / k * math.pow(k / t, a + 1)
 
     @staticmethod
     def get_cdf(params, t):
@@ -562,10 +562,10 @@ class Pareto_dist:
         Возвращает значение ДФР
         params = [a, K]
         """
-        if t < 0:
-            return 0
         a = params[0]
         k = params[1]
+        if t < k:
+            return 1
         return math.pow(k / t, a)
 
     @staticmethod
-- 
2.43.0


From 092d4fbd4b8db6fe17a0be145034b6e810b7c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 70/72] fix: distribution function of Erlang laws of high order
 overflowed

---
 most_queue/rand_distribution.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index e5bc3c2..fb5b630 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -665,10 +665,7 @@ class Erlang_dist:
             return 0
         r = params[0]
         mu = params[1]
-        res = 0
-        for i in range(r):
-            res += math.pow(mu * t, i) * math.exp(-mu * t) / math.factorial(i)
-        return 1.0 - res
+        return sp.gammainc(r, mu * t)
 
     @staticmethod
     def get_tail(params, t):
-- 
2.43.0


From e1a2ac16a9f86b59baf28772361b89238a4fc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 71/72] fix: density of gamma laws at negative times and for
 small variation

---
 most_queue/rand_distribution.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index fb5b630..fcd2582 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -843,15 +843,9 @@ class Gamma:
         :param t: время
         :return: значение плотности Гамма-распределения
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
-        else:
-            main = 0
-        return main
+        if mu * t <= 0:
+            return 0
+        return mu * math.exp((alpha - 1) * math.log(mu * t) - mu * t - sp.gammaln(alpha))
 
     @staticmethod
     def get_f_corrective(mu, alpha, g, t):
@@ -862,14 +856,7 @@ class Gamma:
         g - массив поправочных коэффициентов
         t: время
         """
-        fract = sp.gamma(alpha)
-        if math.fabs(fract) > 1e-12:
-            if math.fabs(mu * t) > 1e-12:
-                main = mu * math.pow(mu * t, alpha - 1) * math.exp(-mu * t) / fract
-            else:
-                main = 0
-        else:
-            main = 0
+        main = Gamma.get_f(mu, alpha, t)
         summ = 0
         for i in range(len(g)):
             summ += g[i] * pow(t, i)
-- 
2.43.0


From 3068c8e082840ec80f8487c77c6cb0afc33f68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 72/72] fix: Cox fit of exponential moments divided by zero

---
 most_queue/rand_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/most_queue/rand_distribution.py b/most_queue/rand_distribution.py
index fcd2582..ce61bd9 100755
--- a/most_queue/rand_distribution.py
+++ b/most_queue/rand_distribution.py
@@ -442,7 +442,7 @@ class Cox_dist:
         if is_fitting:
             # проверка на близость распределения к экспоненциальному
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
-            if abs(moments[1] - moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
+            if abs(moments[1] / 2.0 - moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 1. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
@@ -456,7 +456,7 @@ class Cox_dist:
             coev = cmath.sqrt(moments[1] - moments[0] ** 2) / moments[0]
 
             # проверка на близость распределения к Эрланга 2-го порядка
-            if abs(moments[1] - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
+            if abs(moments[1] / 2.0 - (3.0 / 4) * moments[0] * moments[0]) < ee * abs(moments[0] * moments[0]):
                 if verbose:
                     print("Cox special 2. Multiply moments to (1+je), coev = {0:5.3f},"
                           " e = {1:5.3f}.".format(coev, e))
-- 
2.43.0

