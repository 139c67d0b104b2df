From f13a0d63b34c1c9c1c90686ca70e006218b0da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 01/88] fix: index genetic contractor borders by worker name,
 not by position in the contractor

---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..f932bf6 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker_name, worker in contractor.workers.items():
+            contractor_borders[ind, worker_name2index[worker_name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From 293236d700fcc662fd4eff2a9f274bc1d7bc0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 02/88] fix: do not choose a contractor whose staff is smaller
 than the team fixed by the spec

---
 sampo/scheduler/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index 211ca5b..7ee715d 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -85,6 +85,10 @@ class GenericScheduler(Scheduler):
                 if len(workers) != len(node.work_unit.worker_reqs):
                     return assigned_parent_time, Time.inf(), []
 
+                # team assigned by spec can be larger than contractor's staff
+                if any(worker.count < spec.assigned_workers.get(worker.name, 0) for worker in workers):
+                    return assigned_parent_time, Time.inf(), []
+
                 workers = [worker.copy() for worker in workers]
 
                 # apply worker team spec
-- 
2.43.0


From efdde8e7a2ea1f1d137c03bc92da0564d8eb95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 03/88] fix: genetic parallel scheme estimates time after the
 team fixed by the spec is applied

---
 sampo/scheduler/genetic/converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..41e7113 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +196,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
-- 
2.43.0


From 82403045dcc7c137fa5a87da266992251acab9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 04/88] fix: genetic never moves a work to a contractor that
 cannot supply the team fixed by the spec

---
 sampo/scheduler/genetic/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index f932bf6..0aee5e1 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -73,8 +73,13 @@ def prepare_optimized_data_structures(wg: WorkGraph,
             resources_border[0, worker_index, work_index] = req.min_count
             resources_border[1, worker_index, work_index] = req.max_count
 
-        contractors_spec = spec.get_work_spec(node.id).contractors or map(attrgetter('id'), contractors)
+        work_spec = spec.get_work_spec(node.id)
+        contractors_spec = work_spec.contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
+            # contractor should be able to provide the team assigned by spec
+            if any(contractor_borders[contractor2index[contractor], worker_name2index[req.kind]]
+                   < work_spec.assigned_workers.get(req.kind, 0) for req in node.work_unit.worker_reqs):
+                continue
             contractors_available[work_index, contractor2index[contractor]] = 1
 
     return (worker_pool, index2node, index2zone, work_id2index, worker_name2index, index2contractor_obj,
-- 
2.43.0


From 2d21f1d2686b90fe0cec48bbf7d5b6db06e8061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 05/88] fix: handle a worker team only partly fixed by the spec
 when optimizing resources

---
 sampo/scheduler/resource/average_req.py        | 2 +-
 sampo/scheduler/resource/coordinate_descent.py | 5 +++--
 sampo/scheduler/resource/full_scan.py          | 4 ++--
 sampo/utilities/base_opt.py                    | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..73fd4a5 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -43,14 +43,15 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
             :return:
             """
             for ind, worker in enumerate(worker_team):
-                worker.count = worker_count[ind]
+                if optimize_array is None or optimize_array[ind]:
+                    worker.count = worker_count[ind]
             return get_finish_time(worker_team)
 
         count_worker_team = coordinate_descent(down_border, up_border,
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
+        if optimize_array is not None:
             for i, worker in enumerate(worker_team):
                 if optimize_array[i]:
                     worker.count = count_worker_team[i]
diff --git a/sampo/scheduler/resource/full_scan.py b/sampo/scheduler/resource/full_scan.py
index 291ea24..254f151 100644
--- a/sampo/scheduler/resource/full_scan.py
+++ b/sampo/scheduler/resource/full_scan.py
@@ -35,7 +35,6 @@ class FullScanResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        # TODO Handle optimize_array
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources
@@ -44,7 +43,8 @@ class FullScanResourceOptimizer(ResourceOptimizer):
             :return: finish time with a current set of resources
             """
             for ind, worker in enumerate(worker_team):
-                worker.count = worker_count[ind]
+                if optimize_array is None or optimize_array[ind]:
+                    worker.count = worker_count[ind]
             return get_finish_time(worker_team)
 
         right_fit = fitness(up_border)
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From 31ebfd2a5c8b8a96894a619d7873fd39e6bd5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 06/88] fix: momentum timeline searches a slot for the assigned
 time and keeps lags inside chains

---
 sampo/scheduler/timeline/momentum_timeline.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..25dd638 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -1,4 +1,5 @@
 from collections import deque
+from dataclasses import replace
 from typing import Optional, Union
 
 from sortedcontainers import SortedList
@@ -112,9 +113,14 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if chain_node in assigned_exec_times:
+                node_exec_time: Time = assigned_exec_times[chain_node][1]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -399,11 +405,11 @@ class MomentumTimeline(Timeline):
                  assigned_parent_time: Time = Time(0),
                  work_estimator: WorkTimeEstimator = DefaultWorkEstimator()):
         inseparable_chain = node.get_inseparable_chain_with_self()
+        if assigned_time is not None:
+            spec = replace(spec, assigned_time=assigned_time)
         start_time, _, exec_times = \
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
-        if assigned_time is not None:
-            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
         self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-- 
2.43.0


From b0508a86e327338266af531666a420e2e13fdd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 07/88] fix: momentum timeline keeps the resources of an
 independent work free of parallel users

---
 sampo/scheduler/timeline/momentum_timeline.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 25dd638..4b8d124 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -309,9 +309,7 @@ class MomentumTimeline(Timeline):
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
+                if self._timeline[worker.contractor_id][worker.name][-1].time > start_time:
                     return False
             return True
         else:
@@ -373,14 +371,16 @@ class MomentumTimeline(Timeline):
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
+            # independent work shares its types of resources with nobody, so it occupies all of them
+            count = available_workers_count if spec.is_independent else w.count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= count
+                event.available_workers_count -= count
 
-            assert available_workers_count >= w.count
+            assert available_workers_count >= count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -390,7 +390,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From 83574b2ed83e3d6f5375ca09d8b50693137d27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 08/88] fix: just-in-time timeline waits for predecessors of an
 independent work

---
 .../scheduler/timeline/just_in_time_timeline.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..60d70a9 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,6 +142,14 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
+                return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
+
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
@@ -151,14 +159,6 @@ class JustInTimeTimeline(Timeline):
                     return False
             return True
         else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
-                return False
-
             max_agent_time = Time(0)
             for worker in worker_team:
                 needed_count = worker.count
-- 
2.43.0


From 617a224ed250e1238f9e0dacddf440daa9f9454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 09/88] fix: just-in-time timeline never proposes a start
 before the end of predecessors

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 60d70a9..369d0c8 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -66,8 +66,8 @@ class JustInTimeTimeline(Timeline):
         # define the max end time of all parent tasks
         max_parent_time = max(node.min_start_time(node2swork), assigned_parent_time)
         # define the max agents time when all needed workers are off from previous tasks
-        max_agent_time = Time(0)
-        cur_start_time = max_agent_time
+        # so start searching from the end of all parent tasks
+        cur_start_time = max_parent_time
 
         inseparable_chain = node.get_inseparable_chain_with_self()
 
-- 
2.43.0


From 5a67cb98cf0744497adc867fc32969f5a458eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 10/88] fix: a one-cluster synthetic graph is generated from
 the given random source

---
 sampo/generator/pipeline/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index a8031de..b73ff67 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -121,7 +121,7 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
             break
 
     if len(stages) == 1:
-        return get_small_graph(cluster_name=f'{cluster_name_prefix}1')
+        return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
     nodes.extend([c for c, _ in stages])
-- 
2.43.0


From c6211d393d692a0cdaf3b3a8b5a53169099cdf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 11/88] fix: a uniform interval has a mean, so it can serve as
 a worker productivity

---
 sampo/schemas/interval.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index 7aec4cc..e1250dc 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -55,6 +55,13 @@ class IntervalUniform(Interval):
     max_val: float
     rand: Optional[Random] = Random()
 
+    @property
+    def mean(self) -> float:
+        """
+        Mean of the distribution
+        """
+        return (self.min_val + self.max_val) / 2
+
     def rand_float(self, rand: Optional[random.Random] = None) -> float:
         """
         Returns a random float in the interval boundary according to the distribution of the class
-- 
2.43.0


From c6afb55fdc692ede52dd9c18fa49bc99637dfd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 12/88] fix: random integers of an interval stay inside its
 borders, which can be infinite

---
 sampo/schemas/interval.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index e1250dc..56da54c 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -1,3 +1,4 @@
+import math
 import random
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
@@ -7,7 +8,7 @@ from typing import Optional
 from sampo.schemas.serializable import AutoJSONSerializable
 
 # to work with float and avoid errors due to inaccuracy
-EPS = 1e5
+EPS = 1e-5
 # to work with distributions when certain start and finish value is undefined
 INF = float('inf')
 MINUS_INF = float('-inf')
@@ -81,9 +82,11 @@ class IntervalUniform(Interval):
         """
         rand = rand or self.rand
         value = round(rand.uniform(self.min_val, self.max_val))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
+        # borders can be infinite
+        if math.isfinite(self.min_val):
+            value = max(value, math.ceil(self.min_val - EPS))
+        if math.isfinite(self.max_val):
+            value = min(value, math.floor(self.max_val + EPS))
         return value
 
 
@@ -128,7 +131,9 @@ class IntervalGaussian(Interval):
         """
         rand = rand or self.rand
         value = round(rand.gauss(self.mean, self.sigma))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
+        # borders can be infinite
+        if math.isfinite(self.min_val):
+            value = max(value, math.ceil(self.min_val - EPS))
+        if math.isfinite(self.max_val):
+            value = min(value, math.floor(self.max_val + EPS))
         return value
-- 
2.43.0


From 4f5386da9a5e2b39cdf40bf71b15e35963062537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 13/88] fix: sum of resources reads the name of the worker

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From d1ed004f43ce1232362c223d9ea8663075b98feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 14/88] fix: genetic search does not change the amounts of
 workers assigned by the spec

---
 sampo/scheduler/genetic/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index 0aee5e1..77b41c4 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -68,12 +68,14 @@ def prepare_optimized_data_structures(wg: WorkGraph,
     resources_border = np.zeros((2, len(worker_pool), len(index2node)))
     contractors_available = np.zeros((len(index2node), len(contractor2index)))
     for work_index, node in index2node.items():
+        work_spec = spec.get_work_spec(node.id)
         for req in node.work_unit.worker_reqs:
             worker_index = worker_name2index[req.kind]
-            resources_border[0, worker_index, work_index] = req.min_count
-            resources_border[1, worker_index, work_index] = req.max_count
+            # amount assigned by spec is not a subject of the search
+            assigned_count = work_spec.assigned_workers.get(req.kind, 0)
+            resources_border[0, worker_index, work_index] = assigned_count or req.min_count
+            resources_border[1, worker_index, work_index] = assigned_count or req.max_count
 
-        work_spec = spec.get_work_spec(node.id)
         contractors_spec = work_spec.contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
             # contractor should be able to provide the team assigned by spec
-- 
2.43.0


From 587bb11984304f9ca98dec8b246e7550ee175f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 15/88] fix: copies of workers and materials keep the cost of
 one unit

---
 sampo/schemas/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..7708204 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
@@ -155,7 +156,8 @@ class Material(Resource):
     def copy(self) -> 'Material':
         return Material(id=self.id,
                         name=self.name,
-                        count=self.count)
+                        count=self.count,
+                        cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Material':
         self.count = count
-- 
2.43.0


From af8cdad66abfdee94e562f4c9e3e4823ebfdde22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 16/88] fix: schedule validation checks the lags of
 dependencies

---
 sampo/utilities/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 9eba876..2d61165 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -2,7 +2,7 @@ from copy import deepcopy
 from operator import attrgetter, itemgetter
 
 from sampo.schemas.contractor import Contractor
-from sampo.schemas.graph import WorkGraph
+from sampo.schemas.graph import WorkGraph, EdgeType
 from sampo.schemas.schedule import ScheduledWork, Schedule
 from sampo.schemas.schedule_spec import ScheduleSpec
 from sampo.schemas.time import Time
@@ -56,6 +56,10 @@ def _check_parent_dependencies(schedule: Schedule, wg: WorkGraph) -> None:
         for pnode in node.parents:
             pstart, pend = scheduled_works[pnode.work_unit.id].start_end_time
             assert pstart <= pend <= start <= end
+        for edge in node.edges_to:
+            if EdgeType.is_dependency(edge.type):
+                pend = scheduled_works[edge.start.work_unit.id].finish_time
+                assert pend + int(edge.lag) <= start
 
 
 def _check_all_tasks_corresponds_to_spec(schedule: Schedule, wg: WorkGraph, spec: ScheduleSpec) -> None:
-- 
2.43.0


From 7266349fffda214073d78c3077013ced765fe85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 17/88] fix: schedule validation notices workers that are
 missing or were not required

---
 sampo/utilities/validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 2d61165..b1011d2 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -179,5 +179,9 @@ def _check_all_workers_correspond_to_worker_reqs(wg: WorkGraph, schedule: Schedu
     for swork in schedule.works:
         worker2req = build_index(wg[swork.id].work_unit.worker_reqs, attrgetter('kind'))
         for worker in swork.workers:
+            assert worker.name in worker2req, f'Work {swork.id} is given workers it does not require: {worker.name}'
             req = worker2req[worker.name]
             assert req.min_count <= worker.count <= req.max_count
+        assigned = {worker.name for worker in swork.workers}
+        for req in worker2req.values():
+            assert req.kind in assigned or req.min_count == 0, f'Work {swork.id} lacks required workers: {req.kind}'
-- 
2.43.0


From 4e08c39c2124a32a3f6000810419b700d22fe39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 18/88] fix: deserialization does not change the representation
 it is given

---
 sampo/schemas/graph.py        | 9 +++++----
 sampo/schemas/schedule.py     | 4 ++--
 sampo/schemas/serializable.py | 3 +--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..395f367 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -94,10 +94,11 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
-        representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
-        representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
-        # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
-        return representation
+        return {
+            'work_unit': WorkUnit._deserialize(representation['work_unit']),
+            'parent_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']],
+            # 'child_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
+        }
 
     def update_work_unit(self, work_unit: WorkUnit) -> None:
         self._work_unit = work_unit
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..7caa46a 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -101,8 +101,8 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
-        return Schedule.from_scheduled_works(**dict_representation)
+        works = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
+        return Schedule.from_scheduled_works(works)
 
     @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..baab31a 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -406,7 +406,6 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         type_hints = {}
         if TYPE_HINTS in dict_representation:
             type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
 
         def deserialize_field(name, value):
             """
@@ -430,7 +429,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k not in cls.ignored_fields and k != TYPE_HINTS})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From e91774af11a3d63b81ddaf9ab28aa8127299ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 19/88] fix: works with equipment or object requirements are
 JSON-serializable, pickling keeps the description

---
 sampo/schemas/works.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..7981e2e 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -82,6 +82,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         return [req.material() for req in self.material_reqs]
 
     @custom_serializer('worker_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
     def serialize_serializable_list(self, value) -> list:
@@ -116,6 +118,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [WorkerReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(wr) for wr in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(wr) for wr in value]
+
     @classmethod
     @custom_serializer('zone_reqs', deserializer=True)
     def zone_reqs_deserializer(cls, value) -> list[ZoneReq]:
@@ -150,9 +174,11 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.material_reqs = new_work_unit.material_reqs
         self.zone_reqs = new_work_unit.zone_reqs
         self.id = new_work_unit.id
+        self.name = new_work_unit.name
         self.model_name = new_work_unit.model_name
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
+        self.description = new_work_unit.description
         self.group = new_work_unit.group
         self.display_name = new_work_unit.display_name
         self.priority = new_work_unit.priority
-- 
2.43.0


From 33582c02b7393d9d7f3aeb97e1991bb329189a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 20/88] fix: a pickled or copied work graph keeps its edges

---
 sampo/schemas/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 395f367..5cbad67 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -436,9 +436,10 @@ class WorkGraph(JSONSerializable['WorkGraph']):
 
     def __setstate__(self, state):
         # custom method to avoid calling __hash__() on GraphNode objects
-        deserialized = self._deserialize(state)
-        object.__setattr__(self, 'start', deserialized.start)
-        object.__setattr__(self, 'finish', deserialized.finish)
+        # note that making another WorkGraph here is not possible: when it is deleted, it clears the edges of its nodes
+        start, finish = self._deserialize_ends(state)
+        object.__setattr__(self, 'start', start)
+        object.__setattr__(self, 'finish', finish)
         self.__post_init__()
 
     def __del__(self):
@@ -456,6 +457,10 @@ class WorkGraph(JSONSerializable['WorkGraph']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> JS:
+        return WorkGraph(*cls._deserialize_ends(representation))
+
+    @classmethod
+    def _deserialize_ends(cls, representation: T) -> tuple[GraphNode, GraphNode]:
         serialized_nodes = [GraphNode._deserialize(node) for node in representation['nodes']]
         assert not serialized_nodes[0]['parent_edges']
         start_id, finish_id = (serialized_nodes[i]['work_unit'].id for i in (0, -1))
@@ -466,7 +471,7 @@ class WorkGraph(JSONSerializable['WorkGraph']):
             graph_node = GraphNode(wu, [(nodes_dict[p_id], p_lag, p_type) for p_id, p_lag, p_type in parent_info])
             nodes_dict[wu.id] = graph_node
 
-        return WorkGraph(nodes_dict[start_id], nodes_dict[finish_id])
+        return nodes_dict[start_id], nodes_dict[finish_id]
 
     # TODO: Check that adj matrix is really need
     def _to_adj_matrix(self) -> tuple[list[GraphNode], dok_matrix, dict[str, GraphNode]]:
-- 
2.43.0


From 09bbd090787a6a31235e420a8c815e4ff96fe260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 21/88] fix: correcting priorities visits each predecessor once

---
 sampo/utilities/priority.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..c08328b 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -11,7 +11,8 @@ def update_priority(node, priority_value, visited=None):
     node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
     for parent in getattr(node, "parents", []):
-        update_priority(parent, priority_value, visited)
+        if parent not in visited:
+            update_priority(parent, priority_value, visited)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
-- 
2.43.0


From 758b22d7439620fb686599238812fb71b51f0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 22/88] fix: restructuring does not rename the works of the
 graph it is given

---
 sampo/structurator/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..b960af5 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,9 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        # (in a copy: the dictionary of the original work unit must not be changed or shared between stages)
+        wu_attrs['model_name'] = {**wu.model_name,
+                                  'granular_name': f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'}
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From d43bcd5bbf4410eddb185ea80d7db99fe7a03941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 23/88] fix: inseparable chains are not shared between graphs
 whose works have equal ids

---
 sampo/schemas/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 5cbad67..109f126 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -130,14 +130,12 @@ class GraphNode(JSONSerializable['GraphNode']):
         self.__dict__.pop('parents_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -242,7 +240,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From 8029f4c06ff12edfd96d58b8a2d4a5d1dde25a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 24/88] fix: copies of graph nodes keep priority, description
 and names, and the id 0

---
 sampo/structurator/prepare_wg_copy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..e875079 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -15,20 +15,23 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
     :return: copy of GraphNode and pair(old node id, new node id)
     """
     if change_id:
-        new_id = new_id or uuid_str()
+        new_id = uuid_str() if new_id is None else new_id
         new_id = str(new_id) if isinstance(new_id, int) else new_id
     else:
         new_id = node.work_unit.id
     wu = node.work_unit
     new_wu = WorkUnit(id=new_id,
-                      model_name=wu.model_name,
+                      model_name=deepcopy(wu.model_name),
                       worker_reqs=deepcopy(wu.worker_reqs),
                       material_reqs=deepcopy(wu.material_reqs),
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
+                      description=wu.description,
                       group=wu.group,
-                      is_service_unit=wu.is_service_unit, volume=wu.volume)
+                      priority=wu.priority,
+                      is_service_unit=wu.is_service_unit, volume=wu.volume,
+                      display_name=wu.display_name)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
 
-- 
2.43.0


From f7a58c6a7cec7de722cb3d073cd7f1a699250084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 25/88] fix: deleting a work removes its whole inseparable
 chain and dependencies of all types

---
 sampo/structurator/delete_graph_node.py | 30 ++++++++++---------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..7efcabe 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,11 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    # any node of the inseparable chain can be given, the whole chain is deleted
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+    for node in copied_remove_gn.get_inseparable_chain_with_self():
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
@@ -36,15 +31,14 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    # edges of all types should be removed, not only those which are dependencies
+    for edge in remove_gn.edges_to:
+        edge.start.edges_from[:] = [e for e in edge.start.edges_from if e.finish.id != remove_gn.id]
+        edge.start.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for edge in remove_gn.edges_from:
+        edge.finish.edges_to[:] = [e for e in edge.finish.edges_to if e.start.id != remove_gn.id]
+        edge.finish.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
-- 
2.43.0


From 9abd4dd13bf52ba711a634440f8b7604583af9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 26/88] fix: an inserted work neither overlaps the end of its
 parents nor gets lost without them

---
 sampo/structurator/insert_wu.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..4229752 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -24,12 +24,16 @@ def insert_work_unit(original_wg: WorkGraph, inserted_wu: WorkUnit,
     new_parents_edges = _new_edges(copied_nodes, original_old_to_new_ids, reduced_parent_edges)
     new_children_edges = _new_edges(copied_nodes, original_old_to_new_ids, reduced_children_edges)
 
+    new_start, new_finish = new_start_finish(original_wg, copied_nodes, original_old_to_new_ids)
+
+    # a work without parents (children) follows the start (precedes the finish) of the project
+    new_parents_edges = new_parents_edges or [(new_start, 0, EdgeType.FinishStart)]
+    new_children_edges = new_children_edges or [(new_finish, 0, EdgeType.FinishStart)]
+
     new_node = GraphNode(inserted_wu, new_parents_edges)
     for child, lag, edge in new_children_edges:
         child.add_parents([(new_node, lag, edge)])
 
-    new_start, new_finish = new_start_finish(original_wg, copied_nodes, original_old_to_new_ids)
-
     return WorkGraph(new_start, new_finish)
 
 
@@ -42,8 +46,8 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
-    if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+    if edges and isinstance(edges[0], GraphNode):
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From 617b872f627662d6a3d790185f4411a94b4010df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 27/88] fix: inserting a graph keeps the lags and types of its
 outer dependencies

---
 sampo/structurator/graph_insertion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..658bf04 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -21,12 +21,13 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
     for edge in slave_wg.start.edges_from:
-        slave_nodes[slave_old_to_new[edge.finish.id]].add_parents([master_start])
+        if edge.finish.id in slave_old_to_new:
+            slave_nodes[slave_old_to_new[edge.finish.id]].add_parents([(master_start, edge.lag, edge.type)])
 
     # add parent links from master_finish to slave_wg's nodes
     master_finish = master_nodes[master_old_to_new_ids[master_finish.id]]
-    master_finish.add_parents([slave_nodes[slave_old_to_new[edge.start.id]]
-                               for edge in slave_wg.finish.edges_to])
+    master_finish.add_parents([(slave_nodes[slave_old_to_new[edge.start.id]], edge.lag, edge.type)
+                               for edge in slave_wg.finish.edges_to if edge.start.id in slave_old_to_new])
 
     start, finish = new_start_finish(master_wg, master_nodes, master_old_to_new_ids)
     return WorkGraph(start, finish)
-- 
2.43.0


From 4d28c56d4f00b77f63b94385be6ee3ddbb7693cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 28/88] fix: works of one schedule can have different entries
 in their model names

---
 sampo/schemas/schedule.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 7caa46a..a542d38 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -1,7 +1,6 @@
 from copy import deepcopy
 from datetime import datetime
 from functools import lru_cache
-from operator import itemgetter
 from typing import Iterable, Union, Any
 
 from pandas import DataFrame
@@ -10,7 +9,6 @@ from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.schemas.serializable import JSONSerializable, T
 from sampo.schemas.time import Time
-from sampo.utilities.collections_util import first
 from sampo.utilities.schedule import fix_split_tasks, offset_schedule
 
 ResourceSchedule = dict[str, list[tuple[Time, Time]]]
@@ -18,7 +16,8 @@ ScheduleWorkDict = dict[str, ScheduledWork]
 
 
 def _get_granular_name_columns(sworks: Iterable[ScheduledWork] | None = None):
-    return list(sorted(first(sworks).model_name.keys()))
+    # works are not obliged to have the same entries in their model names
+    return sorted({name for swork in sworks for name in swork.model_name})
 
 
 # TODO: Rebase object onto ScheduleWorkDict and ordered ScheduledWork list
@@ -160,7 +159,7 @@ class Schedule(JSONSerializable['Schedule']):
         model_name_columns = _get_granular_name_columns(works)
 
         def make_model_name_columns(swork: ScheduledWork) -> list[Any]:
-            return list(map(itemgetter(1), sorted(swork.model_name.items(), key=itemgetter(0))))
+            return [swork.model_name.get(name) for name in model_name_columns]
 
         data_frame = [(i,                                                   # idx
                        w.id,                                                # task_id
-- 
2.43.0


From 3792a2e9f0c1cda478fd7049a6b8526832bdef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 29/88] fix: inserting a graph treats the ids of both graphs as
 change_id says

---
 sampo/structurator/graph_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index 658bf04..c4b3418 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,7 +16,8 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                            change_id=change_id)
 
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
-- 
2.43.0


From 0d155f28e0d0963e9aeffa8b3dc9d1efe1a687cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 30/88] fix: the cost of a work split into stages is the sum
 over its stages

---
 sampo/schemas/schedule.py   | 1 +
 sampo/utilities/schedule.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index a542d38..6107a61 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -126,6 +126,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
+            swork.cost = float(row['cost'])
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 05322be..87d4949 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -76,6 +76,8 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
 
         # sum up volumes through all stages
         df.loc[0, 'volume'] = sum(task_df.loc[:, 'volume'])
+        # and the costs
+        df.loc[0, 'cost'] = sum(task_df.loc[:, 'cost'])
         df.loc[0, 'workers'] = task_df.loc[0, 'workers']
 
         # fix task's start time and duration
-- 
2.43.0


From 2c54c8d5145640913bae1187166eb42c890a18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 31/88] fix: the duration of a work split into stages is
 measured like that of other works

---
 sampo/utilities/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 87d4949..3113dfe 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -84,9 +84,9 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
         df.loc[0, 'start'] = task_df.loc[0, 'start']
         df.loc[0, 'finish'] = task_df.loc[len(task_df) - 1, 'finish']
         if isinstance(df.loc[0, 'start'], np.int64) or isinstance(df.loc[0, 'start'], np.int32):
-            df.loc[0, 'duration'] = df.loc[0, 'finish'] - df.loc[0, 'start'] + 1
+            df.loc[0, 'duration'] = df.loc[0, 'finish'] - df.loc[0, 'start']
         else:
-            df.loc[0, 'duration'] = (df.loc[0, 'finish'] - df.loc[0, 'start']).days + 1
+            df.loc[0, 'duration'] = (df.loc[0, 'finish'] - df.loc[0, 'start']).days
     else:
         df = task_df.copy()
 
-- 
2.43.0


From 5a85793bc03bd11f7542075cf93cd0201b1198a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 32/88] fix: the same seed gives the same schedule in every
 process

The order of ids in sets depends on the random seed of string hashes, and it was
used to order works of a level, to sample the next work and to pick a contractor.
---
 sampo/scheduler/genetic/converter.py  | 9 ++++-----
 sampo/scheduler/lft/prioritization.py | 3 ++-
 sampo/scheduler/topological/base.py   | 5 +++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 41e7113..e56d9a2 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -74,11 +74,10 @@ def convert_schedule_to_chromosome(work_id2index: dict[str, int],
                 resource_chromosome[index, res_index] = res_count
                 resource_chromosome[index, -1] = contractor2index[res_contractor]
         else:
-            contractor_list = spec[node_id].contractors
-            if not contractor_list:
-                contractor_list = contractor2index.keys()
-            random_contractor = list(contractor_list)[0]
-            resource_chromosome[index, -1] = contractor2index[random_contractor]
+            work_spec = spec[node_id]
+            any_contractor = next(contractor for contractor in contractor2index
+                                  if work_spec.is_contractor_enabled(contractor))
+            resource_chromosome[index, -1] = contractor2index[any_contractor]
 
     resource_border_chromosome = np.copy(contractor_borders)
 
diff --git a/sampo/scheduler/lft/prioritization.py b/sampo/scheduler/lft/prioritization.py
index c36d256..2932b1f 100644
--- a/sampo/scheduler/lft/prioritization.py
+++ b/sampo/scheduler/lft/prioritization.py
@@ -86,7 +86,8 @@ def lft_randomized_prioritization_core(head_nodes: list[GraphNode],
     candidates = {head_nodes[0].id}
 
     while candidates:
-        eligibles = [node_id for node_id in candidates if is_eligible(node_id)]
+        # the order of a set of ids differs from process to process
+        eligibles = [node_id for node_id in sorted(candidates) if is_eligible(node_id)]
         min_group_priority = min(node_id2group_priority[node_id] for node_id in eligibles)
         eligibles = [node_id for node_id in eligibles if node_id2group_priority[node_id] == min_group_priority]
 
diff --git a/sampo/scheduler/topological/base.py b/sampo/scheduler/topological/base.py
index da31daa..95f2789 100644
--- a/sampo/scheduler/topological/base.py
+++ b/sampo/scheduler/topological/base.py
@@ -36,7 +36,8 @@ class TopologicalScheduler(GenericScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        return list(nodes)
+        # the order of a set of ids differs from process to process
+        return sorted(nodes)
 
     # noinspection PyMethodMayBeStatic
     def _topological_sort(self,
@@ -132,7 +133,7 @@ class RandomizedTopologicalScheduler(TopologicalScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        nds = list(nodes)
+        nds = sorted(nodes)
         indices = np.arange(len(nds))
         self._random_state.shuffle(indices)
         return [nds[ind] for ind in indices]
-- 
2.43.0


From dab9f8d6c410767a84acfc57dea623f0a59475dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 33/88] fix: LFT counts the works assigned to the contractor it
 chose

---
 sampo/scheduler/lft/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/lft/base.py b/sampo/scheduler/lft/base.py
index 3732d9e..2bbfcc4 100644
--- a/sampo/scheduler/lft/base.py
+++ b/sampo/scheduler/lft/base.py
@@ -228,8 +228,9 @@ class LFTScheduler(Scheduler):
             # get workers amounts of the assigned contractor
             assigned_amount = workers_amounts[contractor_index]
 
-            # increase the counter for the assigned contractor
-            contractors_assignments_count[contractor_index] += 1
+            # increase the counter for the assigned contractor,
+            # which is indexed among the accepted contractors only
+            contractors_assignments_count[np.flatnonzero(accepted_contractors_mask)[contractor_index]] += 1
 
             if not spec[work_unit.id].is_contractor_enabled(assigned_contractor.id):
                 raise
-- 
2.43.0


From 01a63f906dfdd439504949a38df9c429e756a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 34/88] fix: land graph nodes can be created with neighbours,
 and without an id get one of their own

---
 sampo/schemas/landscape_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..4fd878c 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -38,7 +38,7 @@ class ResourceStorageUnit:
 
 class LandGraphNode:
     def __init__(self,
-                 id: str = str(uuid.uuid4()),
+                 id: str | None = None,
                  name: str = 'platform',
                  resource_storage_unit: ResourceStorageUnit = ResourceStorageUnit(),
                  neighbour_nodes: list[tuple['LandGraphNode', float, int]] | None = None,
@@ -50,11 +50,11 @@ class LandGraphNode:
         :param resource_storage_unit: object that saves info about the resources in the current node
         (in other words platform)
         """
-        self.id = id
+        self.id = id if id is not None else str(uuid.uuid4())
         self.name = name
+        self._roads: list[LandEdge] = []
         if not (neighbour_nodes is None):
             self.add_neighbours(neighbour_nodes)
-        self._roads: list[LandEdge] = []
         self.nodes: list['GraphNode'] = []
         if works is not None:
             self.nodes.extend(works) if isinstance(works, list) else self.nodes.append(works)
-- 
2.43.0


From ed6c9da24b2b97af3597da8bfc863cf9231c2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 35/88] fix: a work is not placed before a later change of
 stock it could take materials from

---
 sampo/scheduler/timeline/platform_timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..abf7961 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,7 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            if finish > start:
                 return False
 
         return True
-- 
2.43.0


From b39aa1744c7b4f18aac4c97c6937c6cb3f1703e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 36/88] fix: vehicles and roads of a delivery are taken at the
 time it sets off

---
 .../timeline/hybrid_supply_timeline.py        | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..81197f3 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -214,23 +214,27 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             :return: the earliest time when the depot could supply resources with addition information
             """
             for depot in depots:
-                depot_mat_start_time = start_time
-
                 vehicle_count_need = self._get_necessary_vehicles_amount(depot, materials)
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                # get information about route: start time, deliveries,
-                # time of vehicles routing to platform and back separately
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
-
-                # get the minimum start time that all required vehicles are available
-                depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
-
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                depot_vehicle_start_time = start_time
+                while True:
+                    # get information about route: start time, deliveries,
+                    # time of vehicles routing to platform and back separately
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_with_additional(depot.node, platform, selected_vehicles,
+                                                        depot_vehicle_start_time)
+
+                    # get the minimum start time that all required vehicles are available
+                    depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+                    # the roads should be free at the time when the vehicles set off
+                    if depot_vehicle_start_time == route_start_time:
+                        break
+
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, selected_vehicles, deliveries
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +268,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, vehicles, deliveries \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -272,6 +277,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     min_depot_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From 77bae6634f3177e33d4ce7dfa5d90c797c702a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 37/88] fix: materials a work finds on the platform are
 consumed when others are delivered for it

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 81197f3..fd2eef4 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -302,7 +302,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
 
         # update the platform timeline
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(name, count - delivered.get(name, 0), finish_delivery_time)
+                               for name, count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
-- 
2.43.0


From 85c50805f48a6ac39f6adf312a67ab0f0d96837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 38/88] fix: crossover and mutation of the order reach the last
 priority group

---
 sampo/scheduler/genetic/operators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 8fd3114..cc45583 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -500,6 +500,11 @@ def mate_scheduling_order(ind1: Individual, ind2: Individual, rand: random.Rando
 
             mate_parts(order1[cur_priority_group_start:i], order2[cur_priority_group_start:i])
 
+            cur_priority_group_start = i
+
+    # the last group is not followed by a change of priority
+    mate_parts(order1[cur_priority_group_start:], order2[cur_priority_group_start:])
+
     return toolbox.Individual(child1), toolbox.Individual(child2)
 
 
@@ -608,6 +613,9 @@ def mutate_scheduling_order(ind: Individual, mutpb: float, rand: random.Random,
             cur_priority = priorities[order[i]]
             cur_priority_group_start = i
 
+    # the last group is not followed by a change of priority
+    mutate_scheduling_order_core(order[cur_priority_group_start:], mutpb_for_priority_group, rand, parents, children)
+
     return ind
 
 
-- 
2.43.0


From 46a6f2110ac99bcd5851f533042aa91f56e087ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 39/88] fix: serial generation scheme crashes on every project
 with zones

---
 sampo/scheduler/timeline/momentum_timeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 4b8d124..0237374 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -412,8 +412,8 @@ class MomentumTimeline(Timeline):
                                                      assigned_parent_time, work_estimator)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
-        self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-                                         workers, contractor, start_time, exec_times)
+        return self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
+                                                workers, contractor, start_time, exec_times)
 
     def _schedule_with_inseparables(self,
                                     node: GraphNode,
@@ -458,6 +458,7 @@ class MomentumTimeline(Timeline):
         zones = [zone_req.to_zone() for zone_req in node.work_unit.zone_reqs]
         node2swork[node].zones_pre = self.zone_timeline.update_timeline(len(node2swork), zones, start_time,
                                                                         curr_time - start_time)
+        return curr_time
 
     def _validate(self,
                   finish_time: Time,
-- 
2.43.0


From 324fef8cab6e07872b389b3a71225b3116e59df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 40/88] fix: a zone keeps its status till the end of the work,
 changes it in the configured time, and gets its final status

---
 sampo/scheduler/timeline/zone_timeline.py | 110 ++++++----------------
 1 file changed, 29 insertions(+), 81 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..8d76566 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -10,6 +10,8 @@ from sampo.utilities.collections_util import build_index
 
 
 class ZoneTimeline:
+    # the zone is in this status while its status is being changed
+    _CHANGING = -1
 
     def __init__(self, config: ZoneConfiguration):
         def event_cmp(event: ScheduleEvent | Time | tuple[Time, int, int]) -> tuple[Time, int, int]:
@@ -123,85 +125,23 @@ class ZoneTimeline:
         current_start_time = parent_time
         current_start_idx = state.bisect_right(current_start_time) - 1
 
-        # the condition means we have reached the end of schedule for this contractor subject to specialization (wreq)
-        # as long as we assured that this contractor has enough capacity at all to handle the task
-        # we can stop and put the task at the very end
-        i = 0
-        while len(state[current_start_idx:]) > 0:
-            if i > 0 and i % 50 == 0:
-                print(f'Warning! Probably cycle in looking for earliest time slot: {i} iteration')
-                print(f'Current start time: {current_start_time}, current start idx: {current_start_idx}')
-            i += 1
-
-            current_start_status = state[current_start_idx].available_workers_count
+        while current_start_idx < len(state):
+            # the zone should stay in the required status from the start till the end of the work
             end_idx = state.bisect_right(current_start_time + exec_time)
-
-            if not self._match_status(current_start_status, required_status):
-                if current_start_idx == len(state) - 1:
-                    current_start_time += max(0, self._config.time_costs[current_start_status, required_status]
-                                              - (current_start_time - state[-1].time))
-                    break  # if we are in the very end, break
-
-                # if we are inside the interval with wrong status
-                # we should go right and search the better begin
-                if state[current_start_idx].event_type == EventType.START \
-                        and not self._match_status(current_start_status, required_status):
-                    current_start_idx += 1
-                    current_start_time = state[current_start_idx].time
-                    continue
-
-                # here we are outside the all intervals or inside the interval with right status
-                # if we are outside intervals, we can be in right or wrong status, so let's check it
-                # else we are inside the interval with right status so let
-
-                if self._is_inside_interval(state, current_start_idx):
-                    if not self._match_status(current_start_status, required_status):
-                        # we are inside the interval with wrong status, so we can't change it, go next
-                        current_start_idx += 1
-                        current_start_time = state[current_start_idx].time
-                        continue
-                else:
-                    # we are outside the interval, should change status
-                    # check that we can do it
-                    current_start_time += self._config.time_costs[current_start_status, required_status]
-                    end_idx = state.bisect_right(current_start_time + exec_time)
-
-            # here we are guaranteed that current_start_time is in right status
-            # so go right and check matching statuses
-            # this step performed like in MomentumTimeline
-            not_compatible_status_found = False
             for idx in range(end_idx - 1, current_start_idx - 1, -1):
                 if not self._match_status(state[idx].available_workers_count, required_status):
-                    # we're trying to find a new slot that would start with
-                    # either the last index passing the quantity check
-                    # or the index after the execution interval
-                    # we need max here to process a corner case when the problem arises
-                    # on current_start_idx - 1
-                    # without max it would get into infinite cycle
-                    current_start_idx = max(idx, current_start_idx) + 1
-                    not_compatible_status_found = True
+                    # look for the slot after the last moment with incompatible status
+                    current_start_idx = idx + 1
                     break
+            else:
+                return current_start_time
 
-            if not not_compatible_status_found:
-                break
-
-            if current_start_idx >= len(state):
-                # This should be uncommented when there are problems with zone scheduling correctness
-
-                # cur_cpkt = state[-1]
-                # if cur_cpkt.time == current_start_time and not self._match_status(cur_cpkt.available_workers_count,
-                #                                                                   required_status):
-                #     # print('Problem!')
-                #     current_start_time = max(parent_time, state[-1].time + 1)
-                current_start_time = max(parent_time, state[-1].time + 1)
-                break
-
-            current_start_time = state[current_start_idx].time
+            if current_start_idx < len(state):
+                current_start_time = state[current_start_idx].time
 
-        # This should be uncommented when there are problems with zone scheduling correctness
-        self._validate(current_start_time, exec_time, state, required_status)
-
-        return current_start_time
+        # there is no suitable slot, so the status is changed after everything that is planned already
+        change_cost = self._config.time_costs[state[-1].available_workers_count, required_status]
+        return max(current_start_time, state[-1].time + change_cost)
 
     # noinspection PyMethodMayBeStatic
     def _is_inside_interval(self, state: SortedList[ScheduleEvent], idx: int) -> bool:
@@ -210,6 +150,8 @@ class ZoneTimeline:
         ends_count = 0
         # checking from end because it's more realistic to call this function at the almost end of timeline
         for cpkt in state[idx:]:
+            if cpkt.available_workers_count == self._CHANGING:
+                continue
             if cpkt.event_type == EventType.START:
                 starts_count += 1
             else:
@@ -228,8 +170,7 @@ class ZoneTimeline:
             if not self._match_status(start_status, zone.required_status):
                 # starting status don't match, trying to change status
                 change_cost = self._config.time_costs[start_status, zone.required_status]
-                new_start_idx = state.bisect_right(start_time - change_cost)
-                if new_start_idx != start_idx:
+                if start_time - change_cost < state[start_idx - 1].time:
                     # we have incompatible status inside our interval, break
                     return False
 
@@ -247,6 +188,10 @@ class ZoneTimeline:
         sworks = []
 
         for zone in zones:
+            if zone.status == 0:
+                # any status suits, so the zone stays in the status it is in
+                continue
+
             state = self._timeline[zone.name]
             start_idx = state.bisect_right(start_time)
             start_status = state[start_idx - 1].available_workers_count
@@ -258,8 +203,11 @@ class ZoneTimeline:
                 if not self._config.statuses.match_status(start_status, zone.status) \
                 else 0
 
-            state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+            if change_cost > 0:
+                # while the status is being changed, the zone is in no status
+                state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, self._CHANGING))
+            state.add(ScheduleEvent(index, EventType.START, start_time, None, zone.status))
+            state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
 
             if start_status != zone.status and zone.status != 0:
                 # if we need to change status, record it
@@ -277,7 +225,7 @@ class ZoneTimeline:
         for zone in zones:
             state = self._timeline[zone.name]
             latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
+            latest_status = state[-1].available_workers_count
             change_cost = self._config.time_costs[latest_status, zone.status] \
                 if not self._config.statuses.match_status(latest_status, zone.status) \
                 else 0
@@ -291,12 +239,12 @@ class ZoneTimeline:
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=latest_status,
                                              to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
+                                             start_time=latest_time,
+                                             end_time=finish_time))
 
             global_finish_time = max(global_finish_time, finish_time)
 
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From d994880d12e465afc423b5d37c01d2bd93066276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 41/88] fix: serial generation scheme leaves zones in their
 final statuses

---
 sampo/scheduler/genetic/converter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index e56d9a2..45a781a 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -294,9 +294,17 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
         if order_index == 0:  # we are scheduling the work `start of the project`
             st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+            st = max(st, finish_time)
+
         # finish using time spec
         ft = timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
                                st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            node2swork[node].zones_pre = finalizing_zones
+
         # process zones
         zone_reqs = [ZoneReq(index2zone[i], zone_status) for i, zone_status in enumerate(zone_statuses[work_index])]
         zone_start_time = timeline.zone_timeline.find_min_start_time(zone_reqs, ft, 0)
-- 
2.43.0


From e6e23d5754f8ababe2bab4af3d7f2ddb472dd451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 42/88] fix: parallel scheme checks zones and materials of
 independent works; assigned time is used to look for a free zone

---
 .../timeline/just_in_time_timeline.py         | 23 +++++++++++--------
 sampo/scheduler/timeline/momentum_timeline.py | 13 +++++------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 369d0c8..e9fc6ac 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -71,6 +71,9 @@ class JustInTimeTimeline(Timeline):
 
         inseparable_chain = node.get_inseparable_chain_with_self()
 
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
+
         new_finish_time = cur_start_time
         for dep_node in inseparable_chain:
             # set start time as finish time of original work
@@ -80,8 +83,11 @@ class JustInTimeTimeline(Timeline):
             # TODO Decide where this should be
             dep_parent_time = dep_node.min_start_time(node2swork)
 
-            dep_st = max(new_finish_time, dep_parent_time)
-            working_time = work_estimator.estimate_time(dep_node.work_unit, worker_team)
+            if dep_node in assigned_exec_times:
+                lag, working_time = assigned_exec_times[dep_node]
+            else:
+                lag, working_time = 0, work_estimator.estimate_time(dep_node.work_unit, worker_team)
+            dep_st = max(new_finish_time + lag, dep_parent_time)
             new_finish_time = dep_st + working_time
 
         exec_time = new_finish_time - cur_start_time
@@ -157,7 +163,6 @@ class JustInTimeTimeline(Timeline):
                 last_cpkt_time, _ = worker_timeline[0]
                 if last_cpkt_time > start_time:
                     return False
-            return True
         else:
             max_agent_time = Time(0)
             for worker in worker_team:
@@ -177,13 +182,13 @@ class JustInTimeTimeline(Timeline):
             if not max_agent_time <= start_time:
                 return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 0237374..7b8e4ed 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -311,7 +311,6 @@ class MomentumTimeline(Timeline):
             for worker in worker_team:
                 if self._timeline[worker.contractor_id][worker.name][-1].time > start_time:
                     return False
-            return True
         else:
             start = start_time
             end = start_time + exec_time
@@ -333,13 +332,13 @@ class MomentumTimeline(Timeline):
                 if not state[0].available_workers_count >= available_workers_count:
                     return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
-- 
2.43.0


From 19f043f40edbadde7bb7b0df7f2ef8f27c40e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 43/88] fix: name mappers return None from get

---
 sampo/utilities/name_mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/name_mapper.py b/sampo/utilities/name_mapper.py
index 9aa1c1a..80c63dc 100644
--- a/sampo/utilities/name_mapper.py
+++ b/sampo/utilities/name_mapper.py
@@ -60,7 +60,7 @@ class DummyNameMapper(NameMapper):
         return item
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     @property
     def _source(self) -> NameMapper:
@@ -72,7 +72,7 @@ class DictNameMapper(NameMapper):
         self._source = source
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item) -> str:
         return self._source[item] if item in self._source else item
@@ -88,7 +88,7 @@ class ModelNameMapper(NameMapper):
         self.__nie()
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item):
         self.__nie()
-- 
2.43.0


From ab448a869aefd0191c1464a02f6e9e372487a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 44/88] fix: to_frame crashes on every work graph

---
 sampo/schemas/graph.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 109f126..ec1a825 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -380,12 +380,17 @@ class WorkGraph(JSONSerializable['WorkGraph']):
             if node.id not in start_finish_service_nodes:
                 node_info_dict = node.dumpd()
 
+                # description of the type of the task may be given as its name only
+                model_name = node.work_unit.model_name
+                if isinstance(model_name, str):
+                    model_name = {'granular_name': model_name}
+
                 # Get information about tasks from graph nodes (work units)
                 graph_df_structure['activity_id'].append(node_info_dict['work_unit']['id'])
                 graph_df_structure['activity_name'].append(node_info_dict['work_unit']['display_name'])
-                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['name'])
+                graph_df_structure['granular_name'].append(model_name.get('granular_name'))
                 graph_df_structure['volume'].append(node_info_dict['work_unit']['volume'])
-                graph_df_structure['measurement'].append(node_info_dict['work_unit']['volume_type'])
+                graph_df_structure['measurement'].append(model_name.get('measurement'))
                 graph_df_structure['priority'].append(node_info_dict['work_unit']['priority'])
 
                 if save_req:
@@ -393,10 +398,10 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                     max_req_dict = dict()
                     req_volume_dict = dict()
 
-                    for req in node_info_dict['work_unit']['worker_reqs']:
-                        min_req_dict[req['kind']] = req['min_count']
-                        max_req_dict[req['kind']] = req['max_count']
-                        req_volume_dict[req['kind']] = req['volume']['value']
+                    for req in node.work_unit.worker_reqs:
+                        min_req_dict[req.kind] = req.min_count
+                        max_req_dict[req.kind] = req.max_count
+                        req_volume_dict[req.kind] = int(req.volume)
 
                     graph_df_structure['min_req'].append(min_req_dict)
                     graph_df_structure['max_req'].append(max_req_dict)
-- 
2.43.0


From 4d4a1616ea1b7e6bd9cafb4b99b47c0c24a05ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 45/88] fix: types and lags repaired from the history are given
 to the predecessors they belong to

---
 sampo/userinput/parser/history.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index c1c8cec..d6d67aa 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -296,24 +296,18 @@ def set_connections_info(graph_df: pd.DataFrame,
         else:
             pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst = ['-1'], ['-1'], [1], [INF]
 
+        pred_ids_lst_tmp, pred_types_lst_tmp, pred_lags_lst_tmp, pred_counts_lst_tmp = (
+            row['predecessor_ids'].copy(), row['connection_types'].copy(), row['lags'].copy(), [INF] * len(row['lags']))
         if not all_connections:
-            pred_ids_lst_tmp, pred_types_lst_tmp, pred_lags_lst_tmp, pred_counts_lst_tmp = (
-                row['predecessor_ids'].copy(), row['connection_types'].copy(), row['lags'].copy(), [INF] * len(row['lags']))
             if change_connections_info:
                 pred_ids_lst_tmp, pred_types_lst_tmp, pred_lags_lst_tmp, pred_counts_lst_tmp = (
                     update_connections(pred_ids_lst_tmp, pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst))
             pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst = (
                 append_new_connections(pred_ids_lst_tmp, pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst))
-        else:
-            if row['predecessor_ids'] != ['-1']:
-                # if 'lags' is unknown, thus 'connection_type' is also unknown
-                pred_info_lst = [[pred_types_lst[i], pred_lags_lst[i], pred_counts_lst[i]]
-                                 for i in range(len(pred_ids_lst)) if pred_ids_lst[i] in row['predecessor_ids']]
-                pred_ids_lst = row['predecessor_ids']
-                if len(pred_info_lst) > 0:
-                    pred_types_lst, pred_lags_lst, pred_counts_lst = map(list, zip(*pred_info_lst))
-                else:
-                    pred_types_lst, pred_lags_lst, pred_counts_lst = ['-1'], [1], [INF]
+        elif row['predecessor_ids'] != ['-1']:
+            # the connections stay as they are, information about each one is taken from the history if it is there
+            pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst = (
+                update_connections(pred_ids_lst_tmp, pred_ids_lst, pred_types_lst, pred_lags_lst, pred_counts_lst))
 
         while len(pred_ids_lst) != len(pred_types_lst):
             pred_types_lst.append('FS')
-- 
2.43.0


From ee7a2991d8c4309423eea52b038c425c96e29a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 46/88] fix: contractors given as a table: data frames, text
 ids, any order of columns, empty tables

---
 sampo/userinput/parser/csv_parser.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index aae71e4..f95b0d1 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -1,4 +1,3 @@
-import math
 from itertools import chain
 from uuid import uuid4
 
@@ -114,7 +113,7 @@ class CSVParser:
         :param contractor_types:
         :param contractors_number: if we do not receive contractors, we need to know how many contractors the user wants,
         for a generation
-        :param contractor_info: path to contractor info .csv file or list of Contractors
+        :param contractor_info: path to contractor info .csv file, DataFrame with this info or list of Contractors
         :param work_resource_estimator: work estimator that finds necessary resources, based on the history data
         :return: WorkGraph and list of Contractors
         """
@@ -138,7 +137,7 @@ class CSVParser:
 
     @staticmethod
     def work_graph_and_contractors(works_info: pd.DataFrame,
-                                   contractor_info: str | list[Contractor] | tuple[ContractorGenerationMethod, int, float]
+                                   contractor_info: str | pd.DataFrame | list[Contractor] | tuple[ContractorGenerationMethod, int, float]
                                    = (ContractorGenerationMethod.AVG, 1, 1),
                                    contractor_types: list[int] | None = None,
                                    name_mapper: NameMapper | None = None,
@@ -162,7 +161,7 @@ class CSVParser:
         :param contractor_types:
         :param contractors_number: if we do not receive contractors, we need to know how many contractors the user wants,
         for a generation
-        :param contractor_info: path to contractor info .csv file or list of Contractors
+        :param contractor_info: path to contractor info .csv file, DataFrame with this info or list of Contractors
         :param work_resource_estimator: work estimator that finds necessary resources, based on the history data
         :return: WorkGraph and list of Contractors
         """
@@ -175,19 +174,18 @@ class CSVParser:
 
         if isinstance(contractor_info, list):
             contractors = contractor_info
-        elif isinstance(contractor_info, str):
+        elif isinstance(contractor_info, (str, pd.DataFrame)):
             # if contractor info is given or contractor info and work resource estimator are received simultaneously
             contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
                                                                                           str) else contractor_info
+            resource_names = [column for column in contractor_df.columns if column not in ('contractor_id', 'name')]
             for index, row in contractor_df.iterrows():
-                specified_id = 'contractor_id' in contractor_df.columns
-                column_lag = 2 if specified_id else 1
-                contractor_id = row['contractor_id'] if specified_id else str(uuid4())
+                contractor_id = str(row['contractor_id']) if 'contractor_id' in contractor_df.columns else str(uuid4())
                 contractors.append(
                     Contractor(id=contractor_id,
                                name=row['name'],
-                               workers={item[0]: Worker(str(ind), str(item[0]), int(item[1])) for ind, item in
-                                        enumerate(row[column_lag:].items())},
+                               workers={name: Worker(str(ind), str(name), int(row[name]))
+                                        for ind, name in enumerate(resource_names)},
                                equipments=dict())
                 )
 
@@ -195,7 +193,8 @@ class CSVParser:
 
         # if we have no info about contractors or the user send an empty .csv file
         if len(contractors) == 0:
-            generation_method, contractors_number, scaler = contractor_info
+            generation_method, contractors_number, scaler = contractor_info \
+                if isinstance(contractor_info, tuple) else (ContractorGenerationMethod.AVG, 1, 1)
             contractors = [get_contractor_by_wg(work_graph,
                                                 method=generation_method,
                                                 contractor_id=str(i),
-- 
2.43.0


From 8d1b48d3619779ef2141b404e7951983c29731dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 47/88] fix: tables of works without model names, with
 requirements as text or of kinds the estimator does not know

---
 sampo/userinput/parser/csv_parser.py    | 11 +----
 sampo/userinput/parser/general_build.py | 62 ++++++++++++++++---------
 2 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index f95b0d1..b996001 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -1,4 +1,3 @@
-from itertools import chain
 from uuid import uuid4
 
 import pandas as pd
@@ -118,20 +117,14 @@ class CSVParser:
         :return: WorkGraph and list of Contractors
         """
 
+        works_info = works_info.copy()
         works_info['activity_name_original'] = works_info.activity_name
         if name_mapper:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
 
-        resources = [dict((worker_req.kind, int(worker_req.volume))
-                          for worker_req in work_resource_estimator.find_work_resources(model_name=w[0],
-                                                                                        work_volume=float(w[1])))
-                     for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
-
-        unique_res = list(set(chain(*[r.keys() for r in resources])))
-
         works_resources = add_graph_info(works_info)
         works_resources = topsort_graph_df(works_resources)
-        work_graph = build_work_graph(works_resources, unique_res, work_resource_estimator)
+        work_graph = build_work_graph(works_resources, work_resource_estimator)
 
         return work_graph
 
diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..272129c 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -154,6 +154,17 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
     return new_column
 
 
+def read_cell(cell: Any) -> Any:
+    """
+    Cells with dictionaries are written as text in files, and may be the dictionaries themselves in DataFrame
+    """
+    return literal_eval(cell) if isinstance(cell, str) else cell
+
+
+def is_empty(cell: Any) -> bool:
+    return cell is None or cell == '' or (isinstance(cell, float) and math.isnan(cell))
+
+
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
     def normalize_if_number(s):
@@ -161,29 +172,38 @@ def preprocess_graph_df(frame: pd.DataFrame,
             if s.replace('.', '', 1).isdigit() \
             else s
 
+    # the rows are later addressed by their numbers
+    frame = frame.reset_index(drop=True)
+
     temp_lst = [math.nan] * frame.shape[0]
 
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         if col not in frame.columns:
             frame[col] = temp_lst
 
-    if 'model_name' not in frame.columns:
-        frame['model_name'] = ''
-
-    def map_activity(row):
-        model_name_dict = eval(row['model_name'])
+    def get_model_name(row):
+        model_name_dict = {} if is_empty(row.get('model_name')) else dict(read_cell(row['model_name']))
         if 'granular_name' not in model_name_dict:
-            model_name_dict['granular_name'] = name_mapper[row['activity_name']]
-        return str(model_name_dict)
+            if name_mapper is not None:
+                model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            else:
+                model_name_dict['granular_name'] = row['activity_name'] if is_empty(row.get('granular_name')) \
+                    else row['granular_name']
+        if 'measurement' not in model_name_dict and not is_empty(row.get('measurement')):
+            model_name_dict['measurement'] = row['measurement']
+        return model_name_dict
 
-    frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
+    model_names = [get_model_name(row) for _, row in frame.iterrows()]
+    frame['model_name'] = [str(model_name) for model_name in model_names]
+    # the name under which the task is looked for in the history
+    frame['granular_name'] = [model_name['granular_name'] for model_name in model_names]
 
     frame['activity_id'] = frame['activity_id'].astype(str)
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
 
-    if 'min_req' in frame.columns and 'max_req' in frame.columns:
-        frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
-        frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
+    for col in ['min_req', 'max_req', 'req_volume', 'required_statuses']:
+        if col in frame.columns:
+            frame[col] = [read_cell(x) for x in frame[col]]
 
     frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
@@ -240,31 +260,29 @@ def topsort_graph_df(frame: pd.DataFrame) -> pd.DataFrame:
     return frame
 
 
-def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estimator: WorkTimeEstimator) -> WorkGraph:
+def build_work_graph(frame: pd.DataFrame, work_estimator: WorkTimeEstimator) -> WorkGraph:
     id_to_node = {}
 
     for _, row in frame.iterrows():
+        model_name = read_cell(row['model_name'])
         if 'min_req' in frame.columns and 'max_req' in frame.columns and 'req_volume' in frame.columns:
-            reqs = []
-            for res_name in resource_names:
-                if res_name in row['min_req'] and res_name in row['max_req']:
-                    if 0 < row['min_req'][res_name] <= row['max_req'][res_name]:
-                        reqs.append(WorkerReq(res_name, Time(int(row['req_volume'][res_name])),
-                                              row['min_req'][res_name],
-                                              row['max_req'][res_name]))
+            min_req, max_req, req_volume = map(read_cell, (row['min_req'], row['max_req'], row['req_volume']))
+            reqs = [WorkerReq(res_name, Time(int(req_volume[res_name])), min_count, max_req[res_name])
+                    for res_name, min_count in min_req.items()
+                    if res_name in max_req and 0 < min_count <= max_req[res_name]]
         else:
-            reqs = work_estimator.find_work_resources(model_name=eval(row['model_name']),
+            reqs = work_estimator.find_work_resources(model_name=model_name,
                                                       work_volume=float(row['volume']))
         is_service_unit = len(reqs) == 0
 
-        zone_reqs = [ZoneReq(*v) for v in eval(row['required_statuses']).items()] \
+        zone_reqs = [ZoneReq(*v) for v in read_cell(row['required_statuses']).items()] \
             if 'required_statuses' in frame.columns else []
 
         description = row['description'] if 'description' in frame.columns else ''
         group = row['group'] if 'group' in frame.columns else 'main project'
         priority = row['priority'] if 'priority' in frame.columns else 1
 
-        work_unit = WorkUnit(row['activity_id'], row['model_name'], reqs, group=group,
+        work_unit = WorkUnit(row['activity_id'], model_name, reqs, group=group,
                              description=description, volume=row['volume'],
                              is_service_unit=is_service_unit, display_name=row['activity_name_original'],
                              zone_reqs=zone_reqs, priority=priority)
-- 
2.43.0


From dfbf7d2774f43eace229a0c1eff84ad66d6e51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 48/88] fix: ids of predecessors like 1.1 are taken for 1;
 order of works read from tables varies between runs

---
 sampo/userinput/parser/general_build.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 272129c..25ee029 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -168,6 +168,8 @@ def is_empty(cell: Any) -> bool:
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
     def normalize_if_number(s):
+        if s in activity_ids:
+            return s
         return str(int(float(s))) \
             if s.replace('.', '', 1).isdigit() \
             else s
@@ -199,6 +201,7 @@ def preprocess_graph_df(frame: pd.DataFrame,
     frame['granular_name'] = [model_name['granular_name'] for model_name in model_names]
 
     frame['activity_id'] = frame['activity_id'].astype(str)
+    activity_ids = set(frame['activity_id'])
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
 
     for col in ['min_req', 'max_req', 'req_volume', 'required_statuses']:
@@ -290,8 +293,7 @@ def build_work_graph(frame: pd.DataFrame, work_estimator: WorkTimeEstimator) ->
         node = GraphNode(work_unit, parents)
         id_to_node[row['activity_id']] = node
 
-    all_nodes = [id_to_node[index] for index in list(set(id_to_node.keys()))]
-    return WorkGraph.from_nodes(all_nodes)
+    return WorkGraph.from_nodes(list(id_to_node.values()))
 
 
 def get_graph_contractors(path: str, contractor_name: str | None = 'ООО "***"') -> (
-- 
2.43.0


From 7a6909677a26c8ee15bd9fabfb4436d4c32bbd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 49/88] fix: advanced synthetic graphs could not be made: names
 of works are in their model names

---
 sampo/generator/pipeline/extension.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index a91237d..71df298 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -10,7 +10,8 @@ from sampo.schemas.requirements import WorkerReq
 def _extend_str_fields(new_uniq_count: int, wg: WorkGraph, rand: Random,
                        uniq_finder_str: Callable[[WorkGraph], list[str]],
                        update_node: Callable[[GraphNode, dict[str, list[str]], Random], None]) -> WorkGraph:
-    uniq_str = uniq_finder_str(wg)
+    # the order of a set of strings differs from run to run
+    uniq_str = sorted(uniq_finder_str(wg))
     if new_uniq_count <= len(uniq_str):
         return wg
     wg = deepcopy(wg)
@@ -38,16 +39,18 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
-    start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = list(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    uniq_work_names = list(set(node.work_unit.model_name['granular_name'] for node in wg.nodes
+                               if node not in (wg.start, wg.finish)))
     return uniq_work_names
 
 
 def _update_work_name(node: GraphNode, name_to_suffixes: dict[str, list[str]], rand: Random) -> None:
-    name = node.work_unit.name
+    name = node.work_unit.model_name['granular_name']
     if name in name_to_suffixes:
         options = name_to_suffixes[name]
-        node.work_unit.name = name + options[rand.randint(0, len(options)-1)]
+        # works of one type may share the dictionary
+        node.work_unit.model_name = {**node.work_unit.model_name,
+                                     'granular_name': name + options[rand.randint(0, len(options)-1)]}
 
 
 def extend_resources(uniq_resources: int, wg: WorkGraph, rand: Random) -> WorkGraph:
-- 
2.43.0


From 4db800a5119bb352eecc04fd693c9ac17ff33a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 50/88] fix: synthetic graphs exceed the top border of works by
 up to a cluster

---
 sampo/generator/pipeline/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index b73ff67..1dff302 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -107,6 +107,9 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
         checkpoints, roads, count_works = _get_cluster_graph(f'{cluster_name_prefix}{masters_clusters_ind}',
                                                              addition_cluster_probability=addition_cluster_probability,
                                                              rand=rand)
+        if stages and 0 < top_border < works_generated + count_works:
+            break
+
         root_stage = get_root_stage(stages, branching_probability, rand)
         if root_stage is not None:
             for checkpoint in checkpoints:
-- 
2.43.0


From ab1b941cf661994e9d11e92ba0075431b1b43238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 51/88] fix: works get fewer kinds of materials than the bottom
 border, or against the borders given

---
 sampo/generator/base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sampo/generator/base.py b/sampo/generator/base.py
index c34f3ce..24fe233 100644
--- a/sampo/generator/base.py
+++ b/sampo/generator/base.py
@@ -88,20 +88,19 @@ class SimpleSynthetic:
         """
         if materials_name is None:
             materials_name = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal']
-            bottom_border = 2
-            top_border = 6
-        else:
             if bottom_border is None:
-                bottom_border = len(materials_name) // 2
-            if top_border is None:
-                top_border = len(materials_name)
+                bottom_border = 2
+        if bottom_border is None:
+            bottom_border = len(materials_name) // 2
+        if top_border is None:
+            top_border = len(materials_name)
 
         if bottom_border > len(materials_name) or top_border > len(materials_name):
             raise ValueError('The borders are out of the range of materials_name')
 
         for node in wg.nodes:
             if not node.work_unit.is_service_unit:
-                work_materials = list(set(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
+                work_materials = self._rand.sample(materials_name, k=self._rand.randint(bottom_border, top_border))
                 node.work_unit.material_reqs = [MaterialReq(name, self._rand.randint(52, 345), name) for name in
                                                 work_materials]
 
-- 
2.43.0


From 2237ad48a3f490c8cb5a013f7826f781b0df2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 52/88] fix: a synthetic graph of one double cluster exceeds
 the top border of works

---
 sampo/generator/pipeline/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index 1dff302..ac0551b 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -123,7 +123,7 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
                 or 0 < cluster_counts <= (len(stages) - 1)):
             break
 
-    if len(stages) == 1:
+    if len(stages) == 1 or 0 < top_border < works_generated:
         return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
-- 
2.43.0


From 5d7b11ad8c2f997d6eb00f87f7a49db35937b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 53/88] fix: default random productivity was always zero
 (swapped borders)

---
 sampo/schemas/time_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 441124b..8500783 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -63,7 +63,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 1, 0)}
+        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
-- 
2.43.0


From ab9a1988fceaf071c06616bcf95aa9bbec331b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 54/88] fix: default estimator crashes on kinds of workers
 other than the built-in ones

---
 sampo/schemas/time_estimator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 8500783..80e8cb6 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -118,18 +118,22 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         :param max_count_workers: maximum workers count according to worker reqs
         :return:
         """
-        worker_productivities = self._productivity[worker.name]
+        worker_productivities = self._productivities_of(worker.name)
         productivity_interval = worker_productivities.get(worker.contractor_id, worker_productivities['__ALL__'])
         productivity = productivity_interval.mean \
             if self._productivity_mode is WorkerProductivityMode.Static \
             else productivity_interval.rand_float(self.rand)
         return productivity * worker.count * communication_coefficient(worker.count, max_count_workers)
 
+    def _productivities_of(self, name: str) -> dict[str, Interval]:
+        # workers of any kind can be met, not only of those that are known from the beginning
+        return self._productivity.setdefault(name, {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)})
+
     def set_worker_productivity(self, productivity: Interval, name: str, contractor: str | None = None):
         if contractor is None:
-            self._productivity[name]['__ALL__'] = productivity
+            self._productivities_of(name)['__ALL__'] = productivity
             return
-        self._productivity[name][contractor] = productivity
+        self._productivities_of(name)[contractor] = productivity
 
     def get_recreate_info(self) -> tuple[Type, tuple]:
         return DefaultWorkEstimator, ()
-- 
2.43.0


From f3c97a413dfe4e1429d36465f3250f53946eb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 55/88] fix: synthetic graphs of one cluster were replaced by
 ones smaller than the bottom border

---
 sampo/generator/pipeline/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index ac0551b..58d9210 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -123,7 +123,7 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
                 or 0 < cluster_counts <= (len(stages) - 1)):
             break
 
-    if len(stages) == 1 or 0 < top_border < works_generated:
+    if len(stages) == 1 and bottom_border == 0 or 0 < top_border < works_generated:
         return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
-- 
2.43.0


From 60608afb99b17724ca71f28ab2a39f8bc9c2eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 56/88] fix: neighbours of a landscape node stay those of the
 first look

---
 sampo/schemas/landscape_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 4fd878c..ab26ee9 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -63,7 +63,7 @@ class LandGraphNode:
     def __hash__(self):
         return hash(self.id)
 
-    @cached_property
+    @property
     def neighbours(self) -> list['LandGraphNode']:
         if self._roads:
             return [neighbour_edge.finish for neighbour_edge in self._roads]
-- 
2.43.0


From 8857fcb104efbe02b00476d6c785c09b5e76a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 57/88] fix: linked list forgets its last value when iterated
 and what is added after the last was removed

---
 sampo/utilities/linked_list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/linked_list.py b/sampo/utilities/linked_list.py
index 9819f77..89e5b15 100644
--- a/sampo/utilities/linked_list.py
+++ b/sampo/utilities/linked_list.py
@@ -17,7 +17,7 @@ class Iterator(Generic[T]):
         self._prev = None
 
     def __iter__(self):
-        while self._node.next is not None:
+        while self._node is not None:
             yield self._node
             self.__next__()
 
@@ -36,15 +36,19 @@ class Iterator(Generic[T]):
         return self._node is not None
 
     def remove(self) -> T:
-        if self._node == self._lst._root:
+        if self._node is self._lst._root:
             old = self._lst._root
             self._lst._root = old.next
+            if old is self._lst._tail:
+                self._lst._tail = None
             self._node = self._lst._root
             self._lst._len -= 1
             return old.value
         node = self._node
         next = node.next
         self._prev.next = next
+        if node is self._lst._tail:
+            self._lst._tail = self._prev
         self._node = next
         self._lst._len -= 1
         return node.value
-- 
2.43.0


From 34329a9237ab22b7b40169ee2f948022fc70adfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 58/88] fix: scheduling to a deadline crashes when no
 contractor can do some work

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..ed7b9e4 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -42,10 +42,8 @@ class AverageBinarySearchResourceOptimizingScheduler:
                 return (None, Time.inf(), None, None), inner_spec
 
         def fitness(k: float, inner_spec: ScheduleSpec):
-            result = call_scheduler(k, inner_spec)[0][0].execution_time
-            # if result > deadline:
-            #     result = Time.inf()
-            return result
+            schedule = call_scheduler(k, inner_spec)[0][0]
+            return schedule.execution_time if schedule is not None else Time.inf()
 
         copied_spec = deepcopy(spec)
         # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-- 
2.43.0


From 02c7072b12cfa06f8c8cec8dca7884594c6c1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 59/88] fix: scheduling to a deadline forgets the specification
 it is given

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index ed7b9e4..95158cc 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -46,8 +46,6 @@ class AverageBinarySearchResourceOptimizingScheduler:
             return schedule.execution_time if schedule is not None else Time.inf()
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
-- 
2.43.0


From 2845ced765b95c68020c379dce7f52130e8bf75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 60/88] fix: pipeline crashes when a contractor has no workers
 of a required kind

---
 sampo/pipeline/default.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..568744e 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,8 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                offer = offers.get(req.kind)
+                if req.min_count > (offer.count if offer is not None else 0):
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 36c4b2c5e5c40804112943c613ba00532f3a98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 61/88] fix: pipeline ignores the asked lag optimization and
 leaves the graph unrestructured

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 568744e..13f009a 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -277,7 +277,7 @@ class DefaultInputPipeline(InputPipeline):
                     wg = wg2
                     schedules = schedules2
 
-            case LagOptimizationStrategy.TRUE, LagOptimizationStrategy.FALSE:
+            case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
-- 
2.43.0


From 52b83e3969272c6760d83cfc8079324e3a306a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 62/88] fix: pipeline crashes when a second local optimization
 of the schedule is added

---
 sampo/pipeline/default.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 13f009a..ccda481 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -324,7 +324,9 @@ class DefaultSchedulePipeline(SchedulePipeline):
     def finish(self) -> list[ScheduledProject]:
         scheduled_projects = []
         for scheduled_works, node_order in zip(self._scheduled_works, self._input._node_orders):
-            processed_sworks = self._local_optimize_stack.apply(scheduled_works, node_order)
+            processed_sworks = scheduled_works
+            for optimize, args in self._local_optimize_stack.stack:
+                processed_sworks = optimize(processed_sworks, node_order, *args)
             schedule = Schedule.from_scheduled_works(processed_sworks.values(), self._wg)
             scheduled_projects.append(ScheduledProject(self._input._wg, self._wg, self._input._contractors, schedule))
         return scheduled_projects
-- 
2.43.0


From 1f60685fb138552eb6c375728267809e51e8c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 63/88] fix: swapping the works of an order puts works before
 the ones they depend on

---
 sampo/scheduler/utils/local_optimization.py | 34 +++++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..4ade813 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -59,6 +59,15 @@ class ScheduleLocalOptimizer(ABC):
         ...
 
 
+def get_head(node: GraphNode) -> GraphNode:
+    """
+    The first node of the inseparable chain of the given node, the one that takes place in the order of scheduling
+    """
+    while node.is_inseparable_son():
+        node = node.inseparable_parent
+    return node
+
+
 def get_swap_candidates(node: GraphNode,
                         node_index: int,
                         candidates: Iterable[GraphNode],
@@ -70,23 +79,28 @@ def get_swap_candidates(node: GraphNode,
 
     :param node: target node
     :param node_index: index of target node in global sequence
-    :param candidates: list of candidates to swapping
-    :param node2ind: a dict from node to its index
+    :param candidates: list of candidates to swapping, all of them are placed before the target node
+    :param node2ind: a dict from node to its index, without the nodes placed before or after all the given ones
     :param processed: a set of nodes that should not be swapped yet
     """
-    cur_children: set[GraphNode] = node.children_set
+    cur_parents: set[GraphNode] = {get_head(parent) for chain_node in node.get_inseparable_chain_with_self()
+                                   for parent in chain_node.parents} - {node}
 
     def is_candidate_accepted(candidate: GraphNode) -> bool:
-        if candidate in cur_children or candidate in processed:
+        if candidate in cur_parents or candidate in processed:
+            return False
+        if candidate.work_unit.priority != node.work_unit.priority:
             return False
         candidate_ind = node2ind[candidate]
-        for child in cur_children:
-            if node2ind.get(child, 0) >= candidate_ind:  # we have a child between us and candidate
-                return False
-        candidate_parents = candidate.parents
-        for parent in candidate_parents:
-            if node2ind.get(parent, 0) <= node_index:  # candidate has a parent between us and candidate
+        for parent in cur_parents:
+            if node2ind.get(parent, -1) >= candidate_ind:  # we have a parent between us and candidate
                 return False
+        for chain_node in candidate.get_inseparable_chain_with_self():
+            for child in chain_node.children:
+                child = get_head(child)
+                # candidate has a child between us and candidate
+                if child is not candidate and node2ind.get(child, node_index + 1) <= node_index:
+                    return False
         return True
 
     return [candidate for candidate in candidates if is_candidate_accepted(candidate)]
-- 
2.43.0


From cc7ebffcfa4778662131d164fd529b2dd9184650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 64/88] fix: schedule recalculation after local optimization
 runs backwards and keeps the old times

---
 sampo/scheduler/utils/local_optimization.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 4ade813..14de8e1 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -193,18 +193,24 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         timeline = self._timeline_type(worker_pool, landscape_config)
         node2swork_new: dict[GraphNode, ScheduledWork] = {}
 
-        id2contractor = build_index(contractors, attrgetter('name'))
+        node_order = list(node_order)
+        id2contractor = build_index(contractors, attrgetter('id'))
 
         for index, node in enumerate(node_order):
             node_schedule = node2swork[node]
             work_spec = spec.get_work_spec(node.id)
-            # st = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new)
-            # ft = st + node_schedule.get_actual_duration(work_estimator)
+            start_time = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new, work_spec,
+                                                      assigned_parent_time, work_estimator)
+            if index == 0:  # the work `start of the project` starts with the project
+                start_time = assigned_parent_time
+            if index == len(node_order) - 1:  # the work `end of the project` waits for the last changes of zones
+                finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+                start_time = max(start_time, finish_time)
             timeline.schedule(node, node2swork_new, node_schedule.workers,
-                              id2contractor[node_schedule.contractor], work_spec, None, work_spec.assigned_time,
-                              assigned_parent_time, work_estimator)
-            # node_schedule.start_end_time = (st, ft)
-            node2swork_new[node] = node_schedule
+                              id2contractor.get(node_schedule.contractor_id), work_spec, start_time,
+                              work_spec.assigned_time, assigned_parent_time, work_estimator)
+            if index == len(node_order) - 1:
+                node2swork_new[node].zones_pre = finalizing_zones
 
         return node2swork_new
 
@@ -303,7 +309,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-        return self.recalc_schedule(reversed(node_order), contractors, landscape_config, spec, scheduled_works,
+        return self.recalc_schedule(node_order, contractors, landscape_config, spec, scheduled_works,
                                     worker_pool, assigned_parent_time, work_estimator)
 
 
-- 
2.43.0


From 4c401bf9f98d770004fd6a2390f51ca730d839d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 65/88] fix: parallelizing local optimization crashes and may
 break the limits of the teams

---
 sampo/scheduler/utils/local_optimization.py | 40 ++++++++++++---------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 14de8e1..23db577 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -253,30 +253,40 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             my_workers: dict[str, Worker] = build_index(my_schedule.workers, attrgetter('name'))
             my_schedule_reqs: dict[str, WorkerReq] = build_index(node.work_unit.worker_reqs, attrgetter('kind'))
 
-            new_my_workers = {}
-
             # now accepted_candidates is a list of nodes that can(according to dependencies) run in parallel
             for candidate in accepted_candidates:
                 candidate_schedule = scheduled_works[candidate]
 
+                # teams of different contractors do not compete for workers
+                if candidate_schedule.contractor_id != my_schedule.contractor_id:
+                    continue
+
                 candidate_schedule_reqs: dict[str, WorkerReq] = build_index(candidate.work_unit.worker_reqs,
                                                                             attrgetter('kind'))
 
+                new_my_workers: dict[str, int] = {}
                 new_candidate_workers: dict[str, int] = {}
 
                 satisfy = True
 
                 for candidate_worker in candidate_schedule.workers:
-                    my_worker = my_workers.get(candidate_worker.model_name, None)
+                    my_worker = my_workers.get(candidate_worker.name, None)
                     if my_worker is None:  # these two works are not compete for this worker
                         continue
 
-                    need_me = my_workers[candidate_worker.model_name].count
+                    # the team assigned by spec should not be changed
+                    if candidate_worker.name in spec.get_work_spec(node.id).assigned_workers \
+                            or candidate_worker.name in spec.get_work_spec(candidate.id).assigned_workers:
+                        continue
+
+                    need_me = my_worker.count
                     need_candidate = candidate_worker.count
 
-                    total = need_me + need_candidate
-                    my_req = my_schedule_reqs[candidate_worker.model_name]
-                    candidate_req = candidate_schedule_reqs[candidate_worker.model_name]
+                    # both works can not use more workers than contractor has
+                    total = min(need_me + need_candidate,
+                                worker_pool[candidate_worker.name][candidate_worker.contractor_id].count)
+                    my_req = my_schedule_reqs[candidate_worker.name]
+                    candidate_req = candidate_schedule_reqs[candidate_worker.name]
                     needed_min = my_req.min_count + candidate_req.min_count
 
                     if needed_min > total:  # these two works can't run in parallel
@@ -287,25 +297,21 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     my_worker_count = my_req.min_count
                     total -= needed_min
 
-                    add_me = min(my_req.max_count, total // 2)
-                    add_candidate = min(candidate_req.max_count, total - add_me)
+                    add_me = min(my_req.max_count - my_req.min_count, total // 2)
+                    add_candidate = min(candidate_req.max_count - candidate_req.min_count, total - add_me)
 
                     my_worker_count += add_me
                     candidate_worker_count += add_candidate
 
-                    new_my_workers[candidate_worker.model_name] = my_worker_count
-                    new_candidate_workers[candidate_worker.model_name] = candidate_worker_count
+                    new_my_workers[candidate_worker.name] = my_worker_count
+                    new_candidate_workers[candidate_worker.name] = candidate_worker_count
 
                 if satisfy:  # replacement found, apply changes and leave candidates bruteforce
                     print(f'Found! {candidate.work_unit.name} {node.work_unit.name}')
                     for worker in my_schedule.workers:
-                        worker_count = new_my_workers.get(worker.model_name, None)
-                        if worker_count is not None:
-                            worker.count = worker_count
+                        worker.count = new_my_workers.get(worker.name, worker.count)
                     for worker in candidate_schedule.workers:
-                        worker_count = new_candidate_workers.get(worker.model_name, None)
-                        if worker_count is not None:
-                            worker.count = worker_count
+                        worker.count = new_candidate_workers.get(worker.name, worker.count)
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-- 
2.43.0


From ab902b9090c5f02cc1edfb0c956101661b4cf3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 66/88] fix: restructuring a graph that has been restructured
 already loops forever

---
 sampo/structurator/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index b960af5..796a527 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -39,10 +39,12 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     """
     # last stage id is equal to original node id
     last_stage_id = origin_node.id
-    # make first stage id
-    first_stage_id = make_new_node_id(origin_node.id, 0)
-    # if first stage id not in id2new_nodes then there are no stages, so then first stage id is equal to last stage id
-    first_stage_id = first_stage_id if first_stage_id in id2new_nodes else last_stage_id
+    # find first stage: the beginning of the chain of stages of the node,
+    # if the node was not divided into stages then it is the node itself
+    first_stage = id2new_nodes[last_stage_id]
+    while first_stage.is_inseparable_son():
+        first_stage = first_stage.inseparable_parent
+    first_stage_id = first_stage.id
 
     # basic time lag of FinishStart or InseparableFinishStart edges
     indent = 0
-- 
2.43.0


From 96e049d6eb3deacfa0d11aeb726875bc2f38ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 67/88] fix: hybrid search raised TypeError for populations of
 heuristics and judged them by the project the backend held

---
 sampo/hybrid/cycle.py      | 31 ++++++++++++++++++++-----------
 sampo/hybrid/population.py |  5 +++--
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/sampo/hybrid/cycle.py b/sampo/hybrid/cycle.py
index 79e2204..0ab414c 100644
--- a/sampo/hybrid/cycle.py
+++ b/sampo/hybrid/cycle.py
@@ -20,27 +20,36 @@ class CycleHybridScheduler:
         self._fitness = fitness
         self._max_plateau_size = max_plateau_size
 
-    def _get_population_fitness(self, pop: list[ChromosomeType]):
-        # return best chromosome's fitness
-        return min(SAMPO.backend.compute_chromosomes(self._fitness, pop))
-
-    def _get_best_individual(self, pop: list[ChromosomeType]) -> ChromosomeType:
-        fitness = SAMPO.backend.compute_chromosomes(self._fitness, pop)
-        return pop[np.argmin(fitness)]
+    def _compute_fitness(self,
+                         pop: list[ChromosomeType],
+                         wg: WorkGraph,
+                         contractors: list[Contractor],
+                         spec: ScheduleSpec,
+                         assigned_parent_time: Time,
+                         sgs_type: ScheduleGenerationScheme,
+                         landscape: LandscapeConfiguration):
+        # the backend may hold another project, or the settings of the scheduler used last
+        SAMPO.backend.cache_scheduler_info(wg, contractors, landscape, spec)
+        SAMPO.backend.cache_genetic_info(assigned_parent_time=assigned_parent_time, fitness_weights=(-1,),
+                                         sgs_type=sgs_type)
+        return SAMPO.backend.compute_chromosomes(self._fitness, pop)
 
     def run(self,
             wg: WorkGraph,
             contractors: list[Contractor],
             spec: ScheduleSpec = ScheduleSpec(),
             assigned_parent_time: Time = Time(0),
-            landscape: LandscapeConfiguration = LandscapeConfiguration()) -> ChromosomeType:
+            landscape: LandscapeConfiguration = LandscapeConfiguration(),
+            sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel) -> ChromosomeType:
         pop = self._starting_scheduler.schedule([], wg, contractors, spec, assigned_parent_time, landscape)
 
         cur_fitness = Time.inf().value
         plateau_steps = 0
 
         while True:
-            pop_fitness = self._get_population_fitness(pop)
+            fitness = self._compute_fitness(pop, wg, contractors, spec, assigned_parent_time, sgs_type, landscape)
+            # best chromosome's fitness
+            pop_fitness = min(fitness)
             if pop_fitness == cur_fitness:
                 plateau_steps += 1
                 if plateau_steps == self._max_plateau_size:
@@ -52,7 +61,7 @@ class CycleHybridScheduler:
             for scheduler in self._cycle_schedulers:
                 pop = scheduler.schedule(pop, wg, contractors, spec, assigned_parent_time, landscape)
 
-        return self._get_best_individual(pop)
+        return pop[np.argmin(fitness)]
 
     def schedule(self,
                  wg: WorkGraph,
@@ -61,7 +70,7 @@ class CycleHybridScheduler:
                  assigned_parent_time: Time = Time(0),
                  sgs_type: ScheduleGenerationScheme = ScheduleGenerationScheme.Parallel,
                  landscape: LandscapeConfiguration = LandscapeConfiguration()) -> Schedule:
-        best_ind = self.run(wg, contractors, spec, assigned_parent_time, landscape)
+        best_ind = self.run(wg, contractors, spec, assigned_parent_time, landscape, sgs_type)
 
         toolbox = create_toolbox(wg=wg, contractors=contractors, landscape=landscape,
                                  assigned_parent_time=assigned_parent_time, spec=spec,
diff --git a/sampo/hybrid/population.py b/sampo/hybrid/population.py
index 0c635da..c3d7f4d 100644
--- a/sampo/hybrid/population.py
+++ b/sampo/hybrid/population.py
@@ -49,6 +49,7 @@ class HeuristicPopulationScheduler(PopulationScheduler):
         toolbox = create_toolbox(wg=wg, contractors=contractors,
                                  spec=spec, assigned_parent_time=assigned_parent_time,
                                  landscape=landscape)
-        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule))
+        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule, order=node_order))
                 for scheduler in self._schedulers
-                for schedule in scheduler.schedule(wg, contractors, spec, landscape=landscape)]
+                for schedule, _, _, node_order in scheduler.schedule_with_cache(wg, contractors, spec,
+                                                                                landscape=landscape)]
-- 
2.43.0


From 680246c425e51b273197e92172da458ceff40efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 68/88] fix: works were all named 'dummy', so sub-works could
 not be assigned to them by name, and estimators got a string instead of the
 model name of a sub-work

---
 sampo/schemas/structure_estimator.py | 5 +++--
 sampo/schemas/works.py               | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/structure_estimator.py b/sampo/schemas/structure_estimator.py
index fc461c7..af5ba18 100644
--- a/sampo/schemas/structure_estimator.py
+++ b/sampo/schemas/structure_estimator.py
@@ -65,8 +65,9 @@ class DefaultStructureEstimator(StructureEstimator):
         zone_reqs = deepcopy(work_unit.zone_reqs)
         volume = float(self._generator.get_volume(work_unit, sub_work_name))
 
-        worker_reqs = self._work_estimator.find_work_resources(sub_work_name, volume)
-        return WorkUnit(str(uuid4()), sub_work_name,
+        model_name = {'granular_name': sub_work_name, 'measurement': 'unit'}
+        worker_reqs = self._work_estimator.find_work_resources(model_name, volume)
+        return WorkUnit(str(uuid4()), model_name,
                         worker_reqs=worker_reqs, zone_reqs=zone_reqs, volume=volume)
 
     def _gen_sub_works(self, work_unit: WorkUnit) -> list[WorkUnit]:
diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 7981e2e..9f4d47d 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -50,7 +50,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
 
         self.model_name = model_name
 
-        super(WorkUnit, self).__init__(id, 'dummy')
+        super(WorkUnit, self).__init__(id, model_name.get('granular_name', 'dummy'))
 
         if material_reqs is None:
             material_reqs = []
-- 
2.43.0


From d0e1bff852f70ca3ebcb3a4674bdeccb7a095607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 69/88] fix: preparation of a project with contractors ignored
 the structure estimator

---
 sampo/pipeline/preparation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sampo/pipeline/preparation.py b/sampo/pipeline/preparation.py
index 51a7299..3836489 100644
--- a/sampo/pipeline/preparation.py
+++ b/sampo/pipeline/preparation.py
@@ -1,5 +1,6 @@
 import pandas as pd
 
+from sampo.generator.environment import get_contractor_by_wg
 from sampo.schemas import WorkGraph, Contractor, WorkTimeEstimator
 from sampo.schemas.structure_estimator import StructureEstimator
 from sampo.schemas.time_estimator import DefaultWorkEstimator
@@ -92,9 +93,17 @@ class PreparationPipeline:
         return wg
 
     def build_wg_and_contractors(self) -> tuple[WorkGraph, list[Contractor]]:
-        return CSVParser.work_graph_and_contractors(
+        wg, contractors = CSVParser.work_graph_and_contractors(
             works_info=self._prepare_works_info(),
             name_mapper=self._name_mapper,
             contractor_info=self._contractors,
             work_resource_estimator=self._work_estimator
         )
+
+        if self._structure_estimator is not None:
+            wg = self._structure_estimator.restruct(wg)
+            if self._contractors is None:
+                # generated contractors should be able to do the added works too
+                contractors = [get_contractor_by_wg(wg)]
+
+        return wg, contractors
-- 
2.43.0


From 3cec20060b0d055fd418602e4e4d0733ad1e22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 70/88] fix: an obstruction was inserted without its works,
 lost its edges when collected and could be placed after the end of the
 project

---
 sampo/scheduler/utils/obstruction.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/utils/obstruction.py b/sampo/scheduler/utils/obstruction.py
index 2bfcad2..2881518 100644
--- a/sampo/scheduler/utils/obstruction.py
+++ b/sampo/scheduler/utils/obstruction.py
@@ -4,6 +4,7 @@ from random import Random
 from typing import Callable
 
 from sampo.schemas.graph import WorkGraph, GraphNode
+from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy, new_start_finish
 
 
 class Obstruction(ABC):
@@ -51,16 +52,20 @@ class OneInsertObstruction(Obstruction):
     def apply(self, wg: WorkGraph):
         # get the insert graph
         insert_wg = self._insert_wg_getter(self._rand)
+        # nodes are copied, because the edges of `insert_wg` are lost with it,
+        # and get new ids, because the same graph can be inserted several times
+        insert_nodes, insert_ids = prepare_work_graph_copy(insert_wg)
+        insert_start, insert_finish = new_start_finish(insert_wg, insert_nodes, insert_ids)
         # get the insert point
-        insert_node: GraphNode = self._rand.sample(wg.nodes, 1)[0]
+        insert_node: GraphNode = self._rand.sample([node for node in wg.nodes if node.id != wg.finish.id], 1)[0]
+        # inseparable works should stay together
+        while insert_node.inseparable_son is not None:
+            insert_node = insert_node.inseparable_son
+        # get the insert end point
+        insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
         # insert
-        insert_wg.start.add_parents([insert_node])
-
-        if insert_node.children:
-            # get the insert end point
-            insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
-            # insert
-            insert_node_child.add_parents([insert_wg.start])
+        insert_start.add_parents([insert_node])
+        insert_node_child.add_parents([insert_finish])
 
         wg.reinit()
 
-- 
2.43.0


From 327d3412b173196a07747671288f6158d03d33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 71/88] fix: a sampler with a seed gave requirements that
 depended on hashes of strings, with volumes that are not times

---
 sampo/utilities/sampler/requirements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/sampler/requirements.py b/sampo/utilities/sampler/requirements.py
index 2bbeb2d..83ac9c3 100644
--- a/sampo/utilities/sampler/requirements.py
+++ b/sampo/utilities/sampler/requirements.py
@@ -2,6 +2,7 @@ import random
 from typing import Optional
 
 from sampo.schemas.requirements import WorkerReq
+from sampo.schemas.time import Time
 from sampo.utilities.sampler.resources import WORKER_TYPES, WorkerSpecialization
 from sampo.utilities.sampler.types import MinMax
 
@@ -12,14 +13,14 @@ def get_worker_req(rand: random.Random,
                    worker_count: Optional[MinMax[int]] = MinMax[int](1, 100)
                    ) -> WorkerReq:
     count = rand.randint(volume.min, volume.max)
-    return WorkerReq(name, count, worker_count.min, worker_count.max)
+    return WorkerReq(name, Time(count), worker_count.min, worker_count.max)
 
 
 def get_worker_reqs_list(rand: random.Random,
                          volume: Optional[MinMax[int]] = MinMax[int](1, 50),
                          worker_count: Optional[MinMax[int]] = MinMax[int](1, 100)
                          ) -> list[WorkerReq]:
-    names: list[WorkerSpecialization] = list(WORKER_TYPES)
+    names: list[WorkerSpecialization] = sorted(WORKER_TYPES)
     rand.shuffle(names)
     req_count = rand.randint(1, len(names))
     names = names[:req_count]
-- 
2.43.0


From fee143d639577a368129df269d9ac224c2cba99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 72/88] fix: a copied block graph had its edges reversed, and
 the work graph of a block graph lost its edges when the copy was collected

---
 sampo/scheduler/multi_agency/block_graph.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a8a808e..2652d2f 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -4,6 +4,7 @@ from typing import Callable
 from sampo.scheduler.utils.obstruction import Obstruction
 from sampo.schemas.graph import WorkGraph, GraphNode
 from sampo.schemas.works import WorkUnit
+from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy, new_start_finish
 from sampo.utilities.collections_util import build_index
 
 
@@ -56,7 +57,7 @@ class BlockGraph:
         return len(self.nodes)
 
     def __copy__(self) -> 'BlockGraph':
-        parent_ids = [[parent.id for parent in node.blocks_to] for node in self.nodes]
+        parent_ids = [[parent.id for parent in node.blocks_from] for node in self.nodes]
         nodes = [BlockNode(old_node.wg, old_node.obstruction) for old_node in self.nodes]
         nodes_index = build_index(nodes, attrgetter('id'))
 
@@ -73,20 +74,23 @@ class BlockGraph:
         copied_graph = self.__copy__()
         copied_nodes = copied_graph.nodes
 
-        # nodes are copied as follows, since recursion occurs when attempting to copy WorkGraph normally
+        # only nodes are copied, because a WorkGraph takes the edges of its nodes away when it is collected
+        bounds = {}
         for node in copied_nodes:
-            node.wg = WorkGraph._deserialize(node.wg._serialize())
+            work_nodes, old_to_new_ids = prepare_work_graph_copy(node.wg, change_id=False)
+            bounds[node.id] = new_start_finish(node.wg, work_nodes, old_to_new_ids)
 
         nodes_without_children = []
 
         global_start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
 
         for end in copied_nodes:
-            end.wg.start.add_parents([start.wg.finish for start in end.blocks_to])
-            if len(end.wg.start.parents) == 0:
-                end.wg.start.add_parents([global_start])
-            if len(end.wg.finish.children) == 0:
-                nodes_without_children.append(end.wg.finish)
+            block_start, block_finish = bounds[end.id]
+            block_start.add_parents([bounds[start.id][1] for start in end.blocks_from])
+            if len(end.blocks_from) == 0:
+                block_start.add_parents([global_start])
+            if len(end.blocks_to) == 0:
+                nodes_without_children.append(block_finish)
 
         global_end = GraphNode(WorkUnit('finish', 'finish', is_service_unit=True), nodes_without_children)
 
-- 
2.43.0


From 4cb4d71908f3b08be9a12fe8e71bd70c9c43944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:15 +0000
Subject: [PATCH 73/88] fix: random block graphs had fewer edges than the
 probability given says, and none could not be asked for

---
 sampo/scheduler/multi_agency/block_generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 6038225..c8f54fa 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -80,11 +80,10 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
         case SyntheticBlockGraphType.PARALLEL:
             pass
         case SyntheticBlockGraphType.RANDOM:
-            rev_edge_prob = int(1 / edge_prob)
             for idx, start in enumerate(bg.nodes):
                 for end in bg.nodes[idx:]:
                     if not start.is_service() and not end.is_service():
-                        if start == end or rand.randint(0, rev_edge_prob) != 0:
+                        if start == end or rand.random() >= edge_prob:
                             continue
                         bg.add_edge(start, end)
 
-- 
2.43.0


From 469ab95d62fecd8a255e5313f4cc843e2a97be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 74/88] fix: the longest path and the parallelism degree of a
 graph could not be measured, and the degree depended on hashes of ids

---
 sampo/scheduler/selection/metrics.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/sampo/scheduler/selection/metrics.py b/sampo/scheduler/selection/metrics.py
index b60eec7..20bcb13 100644
--- a/sampo/scheduler/selection/metrics.py
+++ b/sampo/scheduler/selection/metrics.py
@@ -4,7 +4,6 @@ from math import ceil
 import numpy as np
 import torch
 
-from sampo.scheduler.topological.base import TopologicalScheduler
 from sampo.schemas.graph import WorkGraph
 
 
@@ -46,26 +45,26 @@ def metric_graph_parallelism_degree(wg: WorkGraph) -> list[float]:
 
     stack = [current_node]
     while stack:
-        tmp_stack = set()
+        tmp_stack = {}  # keeps the order of nodes, so the result does not depend on hashes
         parallelism_coef = 0
 
         for i in range(len(stack)):
-            if stack[i] == 0:
+            if stack[i] is None:
                 continue
             for j in range(i + 1, len(stack)):
-                if stack[j] == 0:
+                if stack[j] is None:
                     continue
                 if stack[j] in stack[i].children:
-                    stack[j] = 0
+                    stack[j] = None
 
         for node in stack:
-            if node == 0:
+            if node is None:
                 continue
             parallelism_coef += 1
             for child in node.children:
-                tmp_stack.add(child)
+                tmp_stack[child.id] = child
         parallelism_degree.append(parallelism_coef / node_count)
-        stack = list(tmp_stack)
+        stack = list(tmp_stack.values())
 
     step = ceil(len(parallelism_degree) / batches)
     aggregated_degree = [0] * batches
@@ -76,15 +75,10 @@ def metric_graph_parallelism_degree(wg: WorkGraph) -> list[float]:
 
 
 def metric_longest_path(wg: WorkGraph) -> float:
-    scheduler = TopologicalScheduler()
-    stack = scheduler.prioritization(wg, None)
+    dist = {node.id: 0 for node in wg.nodes}
 
-    dist = {}
-    for node in stack:
-        dist[node.id] = 0
-
-    while stack:
-        node = stack.pop()
+    # nodes are in the topological order
+    for node in wg.nodes:
         for child in node.children:
             dist[child.id] = max(dist[child.id], dist[node.id] + 1)
 
-- 
2.43.0


From e887dba4d259cf91ebe0f8effe6be4f296200b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 75/88] fix: generating blocks failed at logging the types of
 their graphs

---
 sampo/scheduler/multi_agency/block_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index c8f54fa..3990e06 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -92,7 +92,7 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
             bg.add_edge(global_start, node)
             bg.add_edge(node, global_end)
 
-    logger(f'{graph_type.name} ' + ' '.join([str(mode.model_name) for i, mode in enumerate(modes)
+    logger(f'{graph_type.name} ' + ' '.join([str(mode.name) for i, mode in enumerate(modes)
                                              if nodes[i].vertex_count != EMPTY_GRAPH_VERTEX_COUNT]))
     return bg
 
-- 
2.43.0


From b610315f482c0a35b334629ea376b0da0f674cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 76/88] fix: an auction left the work estimator shared by
 schedulers in the stochastic mode

---
 sampo/scheduler/multi_agency/multi_agency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index 5eef6fa..1d6cba8 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -236,6 +236,8 @@ class StochasticManager(Manager):
 
         old_best_end_time = best_end_time
         best_start_time, best_end_time, best_schedule, best_timeline = best_agent.offer(wg, parent_time)
+        # estimators can be shared, others should not get stochastic times
+        best_agent._scheduler.work_estimator.set_productivity_mode(WorkerProductivityMode.Static)
         modified_end_time = best_start_time + (best_end_time - best_start_time) * self._confidence[
             best_agent.name]
         best_agent.confirm(best_timeline, best_start_time, best_end_time)
-- 
2.43.0


From 06d2d9df0b129e4fef21b1b27ff13854aaed447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 77/88] fix: the chart of a graph failed for names of works and
 for a limited depth

---
 sampo/utilities/visualization/work_graph.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sampo/utilities/visualization/work_graph.py b/sampo/utilities/visualization/work_graph.py
index 45a546a..a15e330 100644
--- a/sampo/utilities/visualization/work_graph.py
+++ b/sampo/utilities/visualization/work_graph.py
@@ -99,10 +99,10 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
         max_volume = max(max_volume, volume)
         id_to_job[unit.id] = len(jobs)
         jobs.append(
-            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.model_name, start=X_PERIOD * deep,
+            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.name, start=X_PERIOD * deep,
                  children=node.children, parents=node.parents,
                  group=unit.group, color=color_from_str(unit.group), volume=volume,
-                 cluster=extract_cluster_name(unit.model_name)))
+                 cluster=extract_cluster_name(unit.name)))
         colors[unit.group] = color_from_str(unit.group)
         for child in node.children:
             work_id = child.id
@@ -116,7 +116,8 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
 def setup_jobs(start: GraphNode, jobs: list[dict], id_to_job: dict[str, int]) -> list[dict]:
     cluster_deep_counts: dict[str, dict[int, int]] = defaultdict(lambda: defaultdict(int))
 
-    not_used_parents = {job['job_id']: len(job['parents']) for job in jobs}
+    not_used_parents = {job['job_id']: len([parent for parent in job['parents'] if parent.id in id_to_job])
+                        for job in jobs}
 
     q = queue.Queue()
     start_ind = id_to_job[start.id]
@@ -141,11 +142,12 @@ def setup_jobs(start: GraphNode, jobs: list[dict], id_to_job: dict[str, int]) ->
     def dfs(v_ind: int, y_pos: int) -> int:
         jobs[v_ind]['y_position'] = y_pos
 
-        used = [id_to_job[child.id] for child in jobs[v_ind]['children'] if id_to_job[child.id] in max_y_pos]
+        # works deeper than `max_deep` are not shown
+        children = [id_to_job[child.id] for child in jobs[v_ind]['children'] if child.id in id_to_job]
+        used = [c_ind for c_ind in children if c_ind in max_y_pos]
         y_pos = max([y_pos] + [max_y_pos[c_ind] for c_ind in used] or [y_pos])
 
-        for child in jobs[v_ind]['children']:
-            c_ind = id_to_job[child.id]
+        for c_ind in children:
             if c_ind not in max_y_pos:
                 y_pos = dfs(c_ind, y_pos) + 1
 
-- 
2.43.0


From 9e941ad6441404847de2fb2496d679594c58ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 78/88] fix: the Gantt chart failed for schedules with zones
 and for colours of works with deliveries, and showed a part of deliveries at
 wrong dates

---
 sampo/utilities/visualization/schedule.py | 41 ++++++++++++++++-------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 4fe814c..88b6851 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -34,11 +34,20 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     schedule_dataframe.loc[:, 'workers'] = schedule_dataframe.loc[:, 'workers_dict']\
         .apply(lambda x: x.replace(", '", ", <br>'"))
 
+    # not all the schedules have these columns
+    for column, values in [('task_name_mapped', schedule_dataframe.loc[:, 'task_name']), ('measurement', '')]:
+        if column not in schedule_dataframe.columns:
+            schedule_dataframe.loc[:, column] = values
+
     schedule_start = schedule_dataframe.loc[:, 'start'].min()
     schedule_finish = schedule_dataframe.loc[:, 'finish'].max()
     visualization_start_delta = timedelta(days=2)
     visualization_finish_delta = timedelta(days=(schedule_finish - schedule_start).days // 3)
 
+    # the date of the zero time, works can start later
+    zero_date = schedule_start if schedule_dataframe.empty else schedule_dataframe['finish'].iloc[0] \
+        - timedelta(int(schedule_dataframe['scheduled_work_object'].iloc[0].finish_time))
+
     def create_delivery_row(i, mat_name, material) -> dict:
         return {'idx': i,
                 'task_id': 'None',
@@ -52,14 +61,15 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': mat_name,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(material[1].value) + schedule_start,
-                'finish': timedelta(material[2].value) + schedule_start}
+                'start': timedelta(int(material[1])) + zero_date,
+                'finish': timedelta(int(material[2])) + zero_date}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
     def get_delivery_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{mat[0][0]}: {mat[0][1]}' for mat in swork.materials.delivery.values()])
+        return '<br>' + '<br>'.join([f'{name}: {mat[0]}' for name, mats in swork.materials.delivery.items()
+                                     for mat in mats])
 
     schedule_dataframe['material_information'] = sworks.apply(get_delivery_info)
 
@@ -69,8 +79,8 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     for i, swork in zip(idx, sworks):
         delivery = swork.materials.delivery
         for name, mat_info in delivery.items():
-            if delivery:
-                mat_delivery_row.append(create_delivery_row(i, name, mat_info[0]))
+            for material in mat_info:
+                mat_delivery_row.append(create_delivery_row(i, name, material))
 
     def create_zone_row(i, zone_names, zone) -> dict:
         return {'idx': i,
@@ -85,14 +95,14 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': zone_names,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(int(zone.start_time)) + schedule_start,
-                'finish': timedelta(int(zone.end_time)) + schedule_start}
+                'start': timedelta(int(zone.start_time)) + zero_date,
+                'finish': timedelta(int(zone.end_time)) + zero_date}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
     def get_zone_usage_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{zone.model_name}: {zone.to_status}' for zone in swork.zones_pre])
+        return '<br>' + '<br>'.join([f'{zone.name}: {zone.to_status}' for zone in swork.zones_pre])
 
     schedule_dataframe['zone_information'] = sworks.apply(get_zone_usage_info)
 
@@ -100,25 +110,30 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     # create zone information
     for i, swork in zip(idx, sworks):
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_pre])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_pre])
         for zone in swork.zones_pre:
             access_cards.append(create_zone_row(i, zone_names, zone))
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_post])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_post])
         for zone in swork.zones_post:
             access_cards.append(create_zone_row(i, zone_names, zone))
 
-    schedule_dataframe = pd.concat([schedule_dataframe, pd.DataFrame.from_records(access_cards), pd.DataFrame.from_records(mat_delivery_row)])
-
+    # access cards and deliveries have no work with a priority
     if color_type == 'contractor':
         schedule_dataframe['color'] = schedule_dataframe[['task_name', 'contractor']] \
             .apply(lambda r: 'Defect' if ':' in r['task_name'] else r['contractor'], axis=1)
     elif color_type == 'priority':
         schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'].apply(lambda x: f'Priority {x.priority}')
     elif color_type == 'critical_path':
-        critical_path_nodes = set(map(attrgetter('id'), critical_path))
+        critical_path_nodes = set(map(attrgetter('id'), critical_path or []))
         schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'] \
                 .apply(lambda x: 'Critical path' if x.id in critical_path_nodes else 'Not critical path')
 
+    additional_rows = pd.DataFrame.from_records(access_cards + mat_delivery_row)
+    if not additional_rows.empty:
+        if color_type in ('contractor', 'priority', 'critical_path'):
+            additional_rows['color'] = additional_rows['contractor']
+        schedule_dataframe = pd.concat([schedule_dataframe, additional_rows], ignore_index=True)
+
     schedule_dataframe['idx'] = (schedule_dataframe[['idx', 'task_name']]
                                  .apply(lambda r: schedule_dataframe[schedule_dataframe['task_name'] ==
                                                                      r['task_name'].split('&')[0]]['idx'].iloc[0]
-- 
2.43.0


From 828cfed5c429ab180fe87a5f2d2043f52b3330e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 79/88] fix: charts of workers failed for schedules and
 intervals, showed free workers as busy and changed the table given

---
 sampo/utilities/visualization/resources.py | 57 +++++++++-------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/sampo/utilities/visualization/resources.py b/sampo/utilities/visualization/resources.py
index e42e393..07a7106 100644
--- a/sampo/utilities/visualization/resources.py
+++ b/sampo/utilities/visualization/resources.py
@@ -89,7 +89,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
             fig.update_traces(textposition='inside')
         return visualize(fig, vis_mode, file_name)
 
-    assert isinstance(resources, ResourceSchedule), \
+    assert isinstance(resources, dict), \
         f'Wrong data format. Expected ResourceSchedule, got {type(resources)} instead.'
 
     # 1. tune plot parameters according to the data size
@@ -103,7 +103,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
     fig, ax = plt.subplots(figsize=size, dpi=dpi)
     for name, worker_schedule in resources.items():
         for worker_time in worker_schedule:
-            ax.barh(name, left=worker_time[0], width=worker_time[1] - worker_time[0])
+            ax.barh(name, left=int(worker_time[0]), width=int(worker_time[1] - worker_time[0]))
 
     for i in range(len(resources) + 1):
         ax.axhline(i - 0.5, color='black')
@@ -137,22 +137,19 @@ def convert_schedule_df(schedule: DataFrame, fig_type: EmploymentFigType,
                     resource_schedule[name] = np.array([0] * total_days)
                 resource_schedule[name][start:finish + 1] += resources[name]
 
-        data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
+        data = list(chain(*[[(first_day + timedelta(days=i), first_day + timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
                             for r, s in resource_schedule.items()]))
         if converter is not None:  # additional injection
             additional = converter(resource_schedule)
-            additional = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
+            additional = list(chain(*[[(first_day + timedelta(days=i), first_day + timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
                                       for r, s in additional.items()]))
             data.extend(additional)
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += first_day
         result = result.sort_values(by='resource', ascending=False)
         return result
 
     if fig_type is EmploymentFigType.WorkLabeled:
         resource_schedule: dict[str, list[tuple[int, str, int]]] = {}
-        schedule.index = list(range(schedule.shape[0]))
-
         i = 0
         for _, item in schedule.iterrows():
             resources = get_resources(item)
@@ -166,10 +163,9 @@ def convert_schedule_df(schedule: DataFrame, fig_type: EmploymentFigType,
                     resource_schedule[name].append((i, w_name, resources[name]))
             i += 1
 
-        data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), w, r, c) for i, w, c in s]
+        data = list(chain(*[[(first_day + timedelta(days=i), first_day + timedelta(days=i + 1), w, r, c) for i, w, c in s]
                             for r, s in resource_schedule.items()]))
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'work', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += first_day
         return result
 
 
@@ -184,61 +180,54 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
             for worker in resources:
                 if worker.name not in resource_schedule:
                     resource_schedule[worker.name] = np.array([0] * int(max_time))
-                resource_schedule[worker.name][start:finish + 1] += worker.count
+                resource_schedule[worker.name][int(start):int(finish) + 1] += worker.count
 
-        data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
+        data = list(chain(*[[(project_start + timedelta(days=i), project_start + timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
                             for r, s in resource_schedule.items()]))
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += project_start
         return result
 
     if fig_type == EmploymentFigType.WorkLabeled:
         resource_schedule: dict[str, list[tuple[int, str, int]]] = {}
         for i, (work, item) in enumerate(sorted(list(schedule.items()), key=lambda x: x[1].start_time)):
             resources: list[Worker] = item.workers
-            w_name = item.model_name
+            w_name = item.display_name
             for worker in resources:
                 if worker.count > 0:
                     if worker.name not in resource_schedule:
                         resource_schedule[worker.name] = []
                     resource_schedule[worker.name].append((i, w_name, worker.count))
 
-        data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), w, r, c) for i, w, c in s]
+        data = list(chain(*[[(project_start + timedelta(days=i), project_start + timedelta(days=i + 1), w, r, c) for i, w, c in s]
                             for r, s in resource_schedule.items()]))
         result = DataFrame.from_records(data, columns=['time_start', 'time_end', 'work', 'resource', 'count'])
-        result.loc[:, ['time_start', 'time_end']] += project_start
         return result
 
 
 def get_workers_intervals(schedule: Schedule, group_workers_by_specializations: bool = False) \
         -> ResourceSchedule:
+    # changes of the number of busy workers
     resources_time_intervals_dict: dict[Time, dict[str, int]] = defaultdict(lambda: defaultdict(int))
     for item in schedule.works:
         start: Time = item.start_time
         finish: Time = item.finish_time
         workers: list[Worker] = item.workers
         for worker in workers:
-            resources_time_intervals_dict[start][worker.name] -= worker.count
-            resources_time_intervals_dict[finish][worker.name] += worker.count
-
-    min_resources: dict[str, int] = defaultdict(int)
-    for milestone, resources in resources_time_intervals_dict.items():
-        resources_time_intervals_dict[milestone] = dict(resources)
-        for name in resources:
-            min_resources[name] = min(min_resources[name], resources[name])
-    resources_time_intervals_dict = dict(resources_time_intervals_dict)
-
-    resources_time_intervals: list[Time, dict[str, int]] = list(resources_time_intervals_dict.items())
-    resources_time_intervals = sorted(resources_time_intervals, key=itemgetter(0))
+            resources_time_intervals_dict[start][worker.name] += worker.count
+            resources_time_intervals_dict[finish][worker.name] -= worker.count
+
+    milestones = sorted(resources_time_intervals_dict)
+    busy_workers: dict[str, int] = defaultdict(int)
     workers_intervals = defaultdict(list)
-    for index, (start, resources) in enumerate(resources_time_intervals[:-1]):
-        finish = resources_time_intervals[index + 1]
-        for name in resources:
-            resources[name] -= min_resources[name]
+    for start, finish in zip(milestones, milestones[1:]):
+        for name, change in resources_time_intervals_dict[start].items():
+            busy_workers[name] += change
+        for name, count in busy_workers.items():
             if group_workers_by_specializations:
-                workers_intervals[name].append((start, finish))
+                if count > 0:
+                    workers_intervals[name].append((start, finish))
             else:
-                for w_index in range(resources[name]):
+                for w_index in range(count):
                     workers_intervals[f'{name}{SPLITTER}{w_index}'].append((start, finish))
 
     if group_workers_by_specializations:
@@ -246,5 +235,5 @@ def get_workers_intervals(schedule: Schedule, group_workers_by_specializations:
                                         key=lambda item: item[0]))
     else:
         workers_intervals = dict(sorted(dict(workers_intervals).items(),
-                                        key=lambda item: (item[0].split(SPLITTER)[0], int(item[0].split(SPLITTER)[1]))))
+                                        key=lambda item: (item[0].rsplit(SPLITTER, 1)[0], int(item[0].rsplit(SPLITTER, 1)[1]))))
     return workers_intervals
-- 
2.43.0


From 631ca79fab1820dd37ab615427e3bf9db469216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 80/88] fix: the first population of the multiprocessing
 backend had reversed orders of works

---
 sampo/backend/multiproc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..e2da645 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -170,7 +170,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +180,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +190,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
-- 
2.43.0


From 2787ef41e53c311c188c767f7499aa89d007d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 81/88] fix: random chromosomes of the multiprocessing backend
 ignored the specification

---
 sampo/backend/multiproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index e2da645..cdf67b2 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -161,7 +161,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         def mapper(key: str):
             def randomized_init():
                 schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
-- 
2.43.0


From 4422705c229a9541ca04c64961a4116a63da1e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 82/88] fix: the result of the multiprocessing backend under a
 seed depended on how processes shared the work

---
 sampo/backend/multiproc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index cdf67b2..6e16f91 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -158,9 +158,11 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         self._ensure_toolbox_created()
         self._ensure_pool_created()
 
-        def mapper(key: str):
+        def mapper(args: tuple[str, int]):
+            key, seed = args
+
             def randomized_init():
-                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
+                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, seed) \
                     .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
@@ -230,5 +232,8 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
-        chromosomes = self.map(mapper, chromosome_types)
+        # seeds are chosen here, processes would repeat each other
+        seeds = [int(self._rand.random() * 1000000) for _ in chromosome_types]
+
+        chromosomes = self.map(mapper, list(zip(chromosome_types, seeds)))
         return [self._toolbox.Individual(chromosome) for chromosome in chromosomes]
-- 
2.43.0


From 9d43a0e6a3449f05a733bc9465cf73abe491b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 83/88] fix: the multiprocessing backend lost the settings of
 the work estimator

---
 sampo/schemas/time_estimator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 80e8cb6..0c8646b 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -136,7 +136,13 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._productivities_of(name)[contractor] = productivity
 
     def get_recreate_info(self) -> tuple[Type, tuple]:
-        return DefaultWorkEstimator, ()
+        return recreate_work_estimator, (type(self), self.__dict__)
+
+
+def recreate_work_estimator(estimator_class: Type[WorkTimeEstimator], state: dict[str, Any]) -> WorkTimeEstimator:
+    estimator = estimator_class.__new__(estimator_class)
+    estimator.__dict__.update(state)
+    return estimator
 
 
 def communication_coefficient(groups_count: int, max_groups: int) -> float:
-- 
2.43.0


From 73447ffd956d60b4831f9874d37c513f802088ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:54 +0000
Subject: [PATCH 84/88] fix: the multiprocessing backend failed for weights of
 the genetic scheduler, it did not know of LFT

---
 sampo/backend/multiproc.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 6e16f91..56ca546 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -13,6 +13,7 @@ from sampo.backend.default import DefaultComputationalBackend
 from sampo.scheduler.genetic.operators import Individual
 from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes, init_chromosomes_f
 from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
+from sampo.scheduler.lft.base import LFTScheduler
 from sampo.scheduler.resource import AverageReqResourceOptimizer
 from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
 from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
@@ -166,6 +167,11 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                     .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
+            def init_lft_schedule() -> tuple[Schedule, list[GraphNode], ScheduleSpec]:
+                schedule, _, _, node_order = LFTScheduler(work_estimator=g_work_estimator) \
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
+                return schedule, node_order, g_spec
+
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
                 try:
                     schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator,
@@ -200,6 +206,8 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 return g_toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=priority_list)
 
             match key:
+                case 'lft':
+                    return convert(*init_lft_schedule())
                 case 'heft_end':
                     return convert(*init_schedule(HEFTScheduler))
                 case 'heft_between':
@@ -215,7 +223,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 case 'randomized':
                     return convert(*randomized_init())
 
-        weights = self._weights or [2, 2, 1, 1, 1, 1]
+        weights = self._weights or [2, 2, 2, 1, 1, 1, 1]
 
         count_for_specified_types = (size_population // 3) // len(weights)
         count_for_specified_types = count_for_specified_types if count_for_specified_types > 0 else 1
@@ -229,7 +237,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         count_for_topological = count_for_topological if count_for_topological > 0 else 1
         counts += [count_for_topological]
 
-        chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
+        chromosome_keys = ['lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
         # seeds are chosen here, processes would repeat each other
-- 
2.43.0


From 15e6f822e06cc8cd904461666d2f4b4b1a8e5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:55 +0000
Subject: [PATCH 85/88] fix: deleting a work leaves works related to it
 otherwise than by a dependency outside of the graph

Such works had no edges any more and the construction of the graph never ended.
---
 sampo/structurator/delete_graph_node.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index 7efcabe..170a09f 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -24,6 +24,13 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
+    # relations which are not dependencies are gone with the task, nodes which had no others are tied to the ends
+    for node in copied_nodes.values():
+        if node is not start and not node.edges_to:
+            node.add_parents([start])
+        if node is not finish and not node.edges_from:
+            finish.add_parents([node])
+
     return WorkGraph(start, finish)
 
 
-- 
2.43.0


From 74ef9c7de789f72c778e846770708853fa91fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 86/88] fix: correcting priorities along a long chain of works
 exceeds the recursion limit

update_priority called itself for every parent, so a project whose last work is more
urgent than a chain of about a thousand works before it could neither be restructured nor
run through the pipeline (RecursionError). Walk the ancestors with an explicit stack.
---
 sampo/utilities/priority.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index c08328b..6519cc7 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -7,12 +7,17 @@ def update_priority(node, priority_value, visited=None):
         visited = set()
 
     visited.add(node)
+    # an explicit stack: a chain of works may be longer than the recursion limit
+    stack = [node]
 
-    node.work_unit.priority = min(node.work_unit.priority, priority_value)
+    while stack:
+        node = stack.pop()
+        node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
-    for parent in getattr(node, "parents", []):
-        if parent not in visited:
-            update_priority(parent, priority_value, visited)
+        for parent in getattr(node, "parents", []):
+            if parent not in visited:
+                visited.add(parent)
+                stack.append(parent)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
-- 
2.43.0


From 7f23ecc4ea88e2dcb1d032719e902f74be173b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:26 +0000
Subject: [PATCH 87/88] fix: priorities inside of inseparable chains are not
 corrected

Inseparable works are ordered as one work with the priority of the first of them, but
check_and_correct_priorities looked only at each dependency by itself. A work that a later
work of a chain waits for kept a priority after that of the chain, and the chain was
scheduled before it, breaking the dependency. Give the works of a chain one priority.
---
 sampo/utilities/priority.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index 6519cc7..5958894 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -14,10 +14,15 @@ def update_priority(node, priority_value, visited=None):
         node = stack.pop()
         node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
-        for parent in getattr(node, "parents", []):
-            if parent not in visited:
-                visited.add(parent)
-                stack.append(parent)
+        related = list(node.parents)
+        if node.is_inseparable_parent():
+            # inseparable works are ordered as one, with the priority of the first of them
+            related.append(node.inseparable_son)
+
+        for related_node in related:
+            if related_node not in visited:
+                visited.add(related_node)
+                stack.append(related_node)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
@@ -32,6 +37,8 @@ def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
                                       f'is less than node {parent_node.work_unit.name} '
                                       f'conflicting with edges, applying auto-correction')
                 update_priority(parent_node, node.work_unit.priority)
+        if node.is_inseparable_son() and node.inseparable_parent.work_unit.priority < node.work_unit.priority:
+            update_priority(node, node.inseparable_parent.work_unit.priority)
 
 
 def extract_priority_groups_from_nodes(nodes: list[GraphNode]) -> dict[int, list[GraphNode]]:
-- 
2.43.0


From 08a2e11a1ea0e4c9d4ef80ed6a9f4084f110c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:44 +0000
Subject: [PATCH 88/88] fix: restructuring fails when two works are connected
 by several dependencies with lags

---
 sampo/structurator/base.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 796a527..3336587 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -23,7 +23,7 @@ def make_new_node_id(work_unit_id: str, ind: int) -> str:
 
 
 def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, GraphNode],
-                              restructuring_edges2new_nodes_id: dict[tuple[str, str], str],
+                              restructuring_edges2new_nodes_id: dict[tuple[int, bool], str],
                               use_lag_edge_optimization: bool):
     """
     Restores parent edges for transformed node
@@ -31,7 +31,7 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     :param origin_node: GraphNode - The original unconverted node
     :param id2new_nodes: GraphNodeDict - Dictionary with restructured new nodes id
         where the restructured nodes are written
-    :param restructuring_edges2new_nodes_id: dict[tuple[str, str], str] - Dictionary for matching edges in the original
+    :param restructuring_edges2new_nodes_id: dict[tuple[int, bool], str] - Dictionary for matching edges in the original
         work graph and IDs of new nodes that logically match those edges
     :param use_lag_edge_optimization: bool - if true - considers lags amount in edges,
         otherwise considers lags equal to zero and LagFinishStart edges as FinishStart edges
@@ -88,21 +88,21 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
             match edge.type:
                 case EdgeType.StartStart:
                     # get id of corresponding created stage node of original parent node
-                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id))
+                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((id(edge), False))
                     # get parent's stage node by received id and add edge between it and first stage of current node
                     parents_first_stage.append((id2new_nodes[new_parent_node_id], indent, EdgeType.FinishStart))
                 case EdgeType.FinishFinish:
                     # get id of corresponding stage of current node and get the stage node itself
-                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id))]
+                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((id(edge), True))]
                     # add edge between parent's created last stage node and received stage node
                     stage_node.add_parents([(id2new_nodes[edge.start.id], indent, EdgeType.FinishStart)])
                 case EdgeType.LagFinishStart:
                     # get id of corresponding created stage node of original parent node
-                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id))
+                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((id(edge), False))
                     # get parent's stage node by received id and add edge between it and first stage of current node
                     parents_first_stage.append((id2new_nodes[new_parent_node_id], indent, EdgeType.FinishStart))
                     # get id of corresponding stage of current node and get the stage node itself
-                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id))]
+                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((id(edge), True))]
                     # add edge between parent's created last stage node and received stage node
                     stage_node.add_parents([(id2new_nodes[edge.start.id], indent, EdgeType.FinishStart)])
 
@@ -114,7 +114,7 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
 
 def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tuple[GraphEdge, bool]],
                            id2new_nodes: dict[str, GraphNode],
-                           restructuring_edges2new_nodes_id: dict[tuple[str, str], str],
+                           restructuring_edges2new_nodes_id: dict[tuple[int, bool], str],
                            use_lag_edge_optimization: bool):
     """
     Splits the node into stages according to the lags in the restructuring edges.
@@ -126,7 +126,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
     :param origin_node: GraphNode - Node to be divided into stages
     :param id2new_nodes: GraphNodeDict - Dictionary with restructured new nodes id where the restructured nodes will
         be written
-    :param restructuring_edges2new_nodes_id: dict[tuple[str, str], str] - Dictionary for matching edges in the original
+    :param restructuring_edges2new_nodes_id: dict[tuple[int, bool], str] - Dictionary for matching edges in the original
         work graph and IDs of new nodes that logically match those edges
     :param use_lag_edge_optimization: bool - if true - considers lags amount in edges,
         otherwise considers lags equal to zero and LagFinishStart edges as FinishStart edges
@@ -199,7 +199,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # make new graph node for new stage with created work unit and with passed edge to previous stage node
         return GraphNode(new_wu, edge_with_prev_stage_node)
 
-    def match_prev_edges_with_stage_nodes_id(restructuring_edges2new_nodes_id: dict[tuple[str, str], str]):
+    def match_prev_edges_with_stage_nodes_id(restructuring_edges2new_nodes_id: dict[tuple[int, bool], str]):
         """
         Matches the original edges, along which a previous stage node has been created,
         and IDs of the previous and current stage nodes.
@@ -208,10 +208,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         Edges that leave the node matches to the previous stage node.
         """
         for prev_edge, prev_is_edge_to_node in edges_to_match_with_stage_nodes:
-            start, finish = prev_edge.start.id, prev_edge.finish.id
-            if prev_is_edge_to_node:
-                start, finish = finish, start
-            restructuring_edges2new_nodes_id[(start, finish)] = \
+            restructuring_edges2new_nodes_id[(id(prev_edge), prev_is_edge_to_node)] = \
                 prev_stage_node_id if not prev_is_edge_to_node else stage_node_id
 
     wu = origin_node.work_unit
@@ -357,10 +354,10 @@ def graph_restructuring(wg: WorkGraph, use_lag_edge_optimization: Optional[bool]
     # mapper of IDs of new nodes and the new nodes themselves that represent the restructured graph
     id2new_nodes: dict[str, GraphNode] = dict()
     # mapper of original edges and IDs of new nodes that should be connected.
-    # edge is specified by two IDs of the nodes that this edge connects.
-    # the order of the node IDs determines (based on the first ID) on which side of the edge the new node ID is written.
+    # edge is specified by its identity, since two nodes can be connected by several edges,
+    # and the flag, whether the edge enters the node, determines on which side of the edge the new node ID is written.
     # used only if the use_lag_edge_optimization is True, since otherwise the connection is trivial
-    restructuring_edges2new_nodes_id: dict[tuple[str, str], str] = dict()
+    restructuring_edges2new_nodes_id: dict[tuple[int, bool], str] = dict()
     # iterate over each node,
     # keeping all the edges that need to be removed and which will break the node into stages,
     # creating a new node (possibly with stage nodes) that will be in the final restructured graph,
-- 
2.43.0

