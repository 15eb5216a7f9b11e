From 0826300f568958f7c7e15c11693bdf23c1a361f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 01/23] fix: PriorityQueue.max_priority must not detach the
 entry from its locator

---
 scaled/utility/queues/async_priority_queue.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 4f976c0..0fc51d3 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -46,6 +46,5 @@ class PriorityQueue(Queue):
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
 
     def max_priority(self):
-        priority, item = heapq.heappop(self._queue)
-        heapq.heappush(self._queue, [priority, item])
-        return priority
+        # only peek: popping and pushing a new list back would leave the old list in the locator, detached from the heap
+        return self._queue[0][0]
-- 
2.43.0


From a2c55114561b910cb950552b8ab90ca13e314dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 02/23] fix: IndexedQueue must index by item, different items
 may share a hash

---
 scaled/utility/queues/async_indexed_queue.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index 18c7d98..cda7476 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -111,33 +111,30 @@ class _DoubleLinkedList:
 class _IndexedDoubleLinkedQueue:
     def __init__(self):
         self._double_linked_list = _DoubleLinkedList()
-        self._hash_map: Dict[int, _Node] = {}
+        self._hash_map: Dict[Hashable, _Node] = {}
 
     def __contains__(self, item: Hashable):
-        key = hash(item)
-        return key in self._hash_map
+        return item in self._hash_map
 
     def __len__(self):
         return self._double_linked_list.__len__()
 
     def put(self, item: Hashable):
-        key = hash(item)
-        if key in self._hash_map:
+        if item in self._hash_map:
             raise KeyError(f"{self.__class__.__name__} already have item: {item}")
 
         node = _Node(item)
         self._double_linked_list.add_to_head(node)
-        self._hash_map[key] = node
+        self._hash_map[item] = node
 
     def get(self):
         node = self._double_linked_list.remove_tail()
-        del self._hash_map[hash(node.value)]
+        del self._hash_map[node.value]
         return node.value
 
     def remove(self, item: Hashable):
-        key = hash(item)
-        if key not in self._hash_map:
+        if item not in self._hash_map:
             raise KeyError(f"{self.__class__.__name__} doesn't have item: {item}")
 
-        node = self._hash_map.pop(key)
+        node = self._hash_map.pop(item)
         self._double_linked_list.remove(node)
-- 
2.43.0


From bf8aefb9cf982c4fec3b2f7e1ee79864335933e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:16 +0000
Subject: [PATCH 03/23] fix: QueuedAllocator.assign_task must not wait for a
 worker with a task in hand

---
 scaled/scheduler/allocators/queued.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/scheduler/allocators/queued.py b/scaled/scheduler/allocators/queued.py
index a791c18..c8f91d0 100644
--- a/scaled/scheduler/allocators/queued.py
+++ b/scaled/scheduler/allocators/queued.py
@@ -55,6 +55,10 @@ class QueuedAllocator(TaskAllocator):
         return {worker: math.ceil(count - mean) for worker, count in worker_task_count.items() if count > mean}
 
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
+        if not self.has_available_worker():
+            # waiting here for a worker would keep a task that is neither queued nor assigned, out of reach for cancel
+            return None
+
         count, worker = await self._worker_queue.get()
         if count == self._max_tasks_per_worker:
             await self._worker_queue.put([count, worker])
-- 
2.43.0


From 9008d4bd2c2fc912385d9f0ca5e7fa331b7b0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 04/23] fix: deleting a function without tasks must not fail
 and is answered with OK

---
 scaled/scheduler/function_manager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 25e25c1..49de51a 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -135,14 +135,13 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self.__send_function_response(client, function_id, FunctionResponseType.NotExists)
             return
 
-        if len(self._function_id_to_task_ids.get_values(function_id)) > 0:
+        if function_id in self._function_id_to_task_ids:
             await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
             return
 
         self._function_id_to_func_info.pop(function_id)
-        self._function_id_to_task_ids.remove_key(function_id)
 
-        await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
+        await self.__send_function_response(client, function_id, FunctionResponseType.OK)
 
     async def __send_function_response(self, client: bytes, function_id: bytes, response_type: FunctionResponseType):
         await self._binder.send(client, FunctionResponse(response_type, function_id, b"", b""))
-- 
2.43.0


From f305cb3f64a99617dac7a14c34990c8b5996d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 05/23] fix: cancelling a queued graph node must not finish the
 graph a second time

---
 scaled/scheduler/graph_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8ab0e8a..6af838e 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -206,6 +206,9 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             if task_id not in graph_info.tasks:
                 continue
 
+            # forget the node first, cancelling a queued task reports its result right away
+            self._task_id_to_graph_task_id.pop(task_id, None)
+
             task_info = graph_info.tasks.pop(task_id)
             if task_info.state == _TaskState.Inactive:
                 await self._function_manager.on_task_done_function(task_id)
@@ -214,8 +217,6 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             else:
                 pass
 
-            self._task_id_to_graph_task_id.pop(task_id, None)
-
         return graph_info
 
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
-- 
2.43.0


From 18ebffdcf8d275201bd5b577d1cad07223f52dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 06/23] fix: a graph node may use the same node as argument
 more than once

---
 scaled/scheduler/graph_manager.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 6af838e..d43cc75 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -187,8 +187,15 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         for task_id in ready_task_ids:
             task_info = graph_info.tasks[task_id]
+            required_task_ids = {
+                arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task
+            }
+            required_results = {
+                required_task_id: self.__get_task_result(graph_task_id, task_id, required_task_id)
+                for required_task_id in required_task_ids
+            }
             task_info.task.function_args = [
-                self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
+                self.__get_argument(required_results, arg) for arg in task_info.task.function_args
             ]
             task_info.state = _TaskState.Running
             await self._task_manager.on_task_new(graph_info.client, task_info.task)
@@ -240,15 +247,13 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         return [graph_info.tasks[task_id].result for task_id in graph_info.target_task_ids]
 
-    def __get_argument(self, graph_task_id: bytes, task_id: bytes, argument: Argument) -> Argument:
+    @staticmethod
+    def __get_argument(required_results: Dict[bytes, bytes], argument: Argument) -> Argument:
         if argument.type == ArgumentType.Data:
             return argument
 
         assert argument.type == ArgumentType.Task
-        argument_task_id = argument.data
-
-        result = self.__get_task_result(graph_task_id, task_id, argument_task_id)
-        return Argument(ArgumentType.Data, result)
+        return Argument(ArgumentType.Data, required_results[argument.data])
 
     def __get_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes) -> bytes:
         graph_info = self._graph_task_id_to_graph[graph_task_id]
-- 
2.43.0


From ce500c9edab62b114bc23968d9f7b9af5b98ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 07/23] fix: cancelling an unknown or finished graph must not
 break the scheduler

---
 scaled/scheduler/graph_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index d43cc75..0a9926c 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -1,5 +1,6 @@
 import dataclasses
 import enum
+import logging
 from asyncio import Queue
 from graphlib import TopologicalSorter
 from typing import Dict
@@ -107,6 +108,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         await self._unassigned.put((client, graph_task))
 
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
+        if graph_task_cancel.task_id not in self._graph_task_id_to_graph:
+            logging.warning(f"cannot cancel graph is not running: graph_task_id={graph_task_cancel.task_id.hex()}")
+            return
+
         await self.__clean_graph(graph_task_cancel.task_id)
 
     async def on_task_done(self, result: TaskResult) -> bool:
-- 
2.43.0


From 7a52675b2cef133eaae03d744c8ee403f48f84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 08/23] fix: a graph node reported as not found ends its graph
 instead of breaking the scheduler

---
 scaled/scheduler/graph_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 0a9926c..aa77e30 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -239,7 +239,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         if result.status == TaskStatus.Success:
             task_info.state = _TaskState.Success
-        elif result.status == TaskStatus.Canceled:
+        elif result.status in {TaskStatus.Canceled, TaskStatus.NotFound}:
             task_info.state = _TaskState.Canceled
         elif result.status == TaskStatus.Failed:
             task_info.state = _TaskState.Failed
-- 
2.43.0


From dea3abfe613bc389d92b8d9334c1717c94877333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 09/23] fix: load balancing configured to trigger on the first
 advice never triggered

---
 scaled/scheduler/worker_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index bc2149d..3428d6f 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -140,9 +140,9 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
             self._load_balance_advice_same_count = 1
-            return
+        else:
+            self._load_balance_advice_same_count += 1
 
-        self._load_balance_advice_same_count += 1
         if self._load_balance_advice_same_count != self._load_balance_trigger_times:
             return
 
-- 
2.43.0


From 40e514f1fd686ad8a08ff645431fc0e5fee2bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:57 +0000
Subject: [PATCH 10/23] fix: a frame tagged with a message type that has no
 message is dropped instead of breaking the receiver

---
 scaled/io/async_binder.py    | 2 +-
 scaled/io/async_connector.py | 2 +-
 scaled/io/sync_connector.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaled/io/async_binder.py b/scaled/io/async_binder.py
index 4233360..e3a4561 100644
--- a/scaled/io/async_binder.py
+++ b/scaled/io/async_binder.py
@@ -79,7 +79,7 @@ class AsyncBinder(Looper, Reporter):
             logging.error(f"{self.__get_prefix()} received unexpected frames {frames}")
             return False
 
-        if frames[1] not in {member.value for member in MessageType}:
+        if frames[1] not in {member.value for member in PROTOCOL}:
             logging.error(f"{self.__get_prefix()} received unexpected message type: {frames[0]!r}")
             return False
 
diff --git a/scaled/io/async_connector.py b/scaled/io/async_connector.py
index d112d70..dd9b8fe 100644
--- a/scaled/io/async_connector.py
+++ b/scaled/io/async_connector.py
@@ -97,7 +97,7 @@ class AsyncConnector:
             logging.error(f"{self.__get_prefix()} received unexpected frames {frames}")
             return False
 
-        if frames[0] not in {member.value for member in MessageType}:
+        if frames[0] not in {member.value for member in PROTOCOL}:
             logging.error(f"{self.__get_prefix()} received unexpected message type: {frames[0]!r}")
             return False
 
diff --git a/scaled/io/sync_connector.py b/scaled/io/sync_connector.py
index 58fc84f..c0c07df 100644
--- a/scaled/io/sync_connector.py
+++ b/scaled/io/sync_connector.py
@@ -120,7 +120,7 @@ class SyncConnector(threading.Thread):
             logging.error(f"{self.__get_prefix()} received unexpected frames {frames}")
             return
 
-        if frames[0] not in {member.value for member in MessageType}:
+        if frames[0] not in {member.value for member in PROTOCOL}:
             logging.error(f"{self.__get_prefix()} received unexpected message type: {frames[0]!r}")
             return
 
-- 
2.43.0


From 4874affa5367e3beae4524c7322f1c3851d78a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 11/23] fix: a graph without functions can be sent

---
 scaled/protocol/python/message.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index e55ba4f..fe2d931 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -182,9 +182,8 @@ class GraphTask(_Message):
         function_bytes = list()
         function_bytes.append(struct.pack("I", len(self.functions)))
         function_bytes.extend(self.functions.keys())
-        names, content = zip(*self.functions.values())
-        function_bytes.extend(names)
-        function_bytes.extend(content)
+        function_bytes.extend([name for name, _ in self.functions.values()])
+        function_bytes.extend([content for _, content in self.functions.values()])
 
         graph_bytes = []
         for task in self.graph:
-- 
2.43.0


From 9a4102332cbad7064f28bf872acc2703a3d1e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:39 +0000
Subject: [PATCH 12/23] fix: cleaning the function cache must not fail when a
 function is added meanwhile

---
 scaled/worker/agent/processor/cache_cleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 31aa835..0c8a2a7 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -55,7 +55,7 @@ class CacheCleaner(threading.Thread):
         now = time.time()
         idle_functions = [
             function_id
-            for function_id, alive_since in self._cached_functions_alive_since.items()
+            for function_id, alive_since in list(self._cached_functions_alive_since.items())
             if now - alive_since > self._function_retention_seconds
         ]
         for function_id in idle_functions:
-- 
2.43.0


From 8b89ef8794febc56c3d4247272bde52f327ce968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 13/23] fix: a task cancel or function response reaching an
 idle worker must not break the agent

---
 scaled/worker/agent/processor_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index f378c55..63a5006 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -102,6 +102,9 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return
 
+        if self._processor_holder.task is None:
+            return
+
         if self._processor_holder.task.function_id != response.function_id:
             return
 
@@ -115,6 +118,9 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return False
 
+        if self._processor_holder.task is None:
+            return False
+
         if self._processor_holder.task.task_id != task_id:
             return False
 
-- 
2.43.0


From 6fb561578c271999fcbecd3de9c1ac8eb97388fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 14/23] fix: a worker takes a task off its queue only when the
 processor can run it

---
 scaled/worker/agent/mixins.py            | 4 ++++
 scaled/worker/agent/processor_manager.py | 6 ++++++
 scaled/worker/agent/task_manager.py      | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 9229fa2..afcd6ad 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -62,6 +62,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     def on_function_response(self, response: FunctionResponse):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_until_can_accept_task(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 63a5006..237aed8 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -89,6 +89,12 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         raise TypeError(f"unknown function request type: {request.type}")
 
+    async def wait_until_can_accept_task(self):
+        async with self._processor_holder.task_wait_lock:
+            pass
+
+        await self._processor_holder.initialized.wait()
+
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index ac23f29..f746c07 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -64,6 +64,9 @@ class VanillaTaskManager(Looper, TaskManager):
         return self._queued_task_ids.qsize()
 
     async def __processing_task(self):
+        # a task taken off the queue can neither be canceled nor given back, take it only when the processor can run it
+        await self._processor_manager.wait_until_can_accept_task()
+
         task_id = await self._queued_task_ids.get()
         task = self._queued_task_id_to_task.pop(task_id)
         if await self._processor_manager.on_task(task):
-- 
2.43.0


From 408c85869a5e8f4edbb2a5d4c0b2e0950429c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 15/23] fix: a failed graph fails every one of its futures

---
 scaled/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8e4bf20..1ccdb50 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -227,8 +227,8 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
-            for i, result in enumerate(graph_result.results):
-                futures[i].set_exception(exception)
+            for future in futures:
+                future.set_exception(exception)
             return
 
     def __on_exit(self):
-- 
2.43.0


From 8a60d402b1a7c7bffc1e69bf663600d86d98d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 16/23] fix: a key requested twice from a graph must not shift
 the futures of the others

---
 scaled/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 1ccdb50..89fcdd1 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -128,7 +128,8 @@ class Client:
         self._connector.send(graph_task)
         self._graph_task_id_to_futures[graph_task.task_id] = futures
 
-        return_futures: Dict[str, Future] = dict(zip(keys, futures))
+        # a key may be requested more than once, it has one future
+        return_futures: Dict[str, Future] = dict(zip(dict.fromkeys(keys), futures))
         if not block:
             # just return futures
             return return_futures
-- 
2.43.0


From 176bb679e0d0f4ce56089866e570e9d9b919558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 17/23] fix: map must not consume an iterator while checking it

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 89fcdd1..bc526e8 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -94,6 +94,7 @@ class Client:
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
+        iterable = list(iterable)
         if not all(isinstance(args, (tuple, list)) for args in iterable):
             raise TypeError("iterable should be list of arguments(list or tuple-like) of function")
 
-- 
2.43.0


From d53a80cc65110a161fb2651eafc7fcc73d7434ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 18/23] fix: reject arguments that cannot be passed on
 faithfully

---
 scaled/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index bc526e8..af77a7e 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -263,10 +263,19 @@ class Client:
 
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
+        # a call that fn would refuse is refused here with the same TypeError
+        signature(fn).bind(*args, **kwargs)
+
         all_params = [p for p in signature(fn).parameters.values()]
 
         params = [p for p in all_params if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
 
+        # only positional arguments are sent to workers
+        names = {p.name for p in params if p.kind == p.POSITIONAL_OR_KEYWORD}
+        keyword_only = tuple(name for name in kwargs if name not in names)
+        if keyword_only:
+            raise TypeError(f"{fn} got arguments that can only be passed by keyword, this is not supported: {keyword_only}")
+
         if len(args) >= len(params):
             return args
 
@@ -274,7 +283,6 @@ class Client:
 
         args_list = list(args)
         kwargs = kwargs.copy()
-        kwargs.update({p.name: p.default for p in all_params if p.kind == p.KEYWORD_ONLY if p.default != p.empty})
 
         for p in params[len(args_list) : number_of_required]:
             try:
-- 
2.43.0


From 4c520720733e8319aee77fba53b99f228d4a27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 19/23] fix: submitting from one thread while replies are
 processed in another must not lose tasks

---
 scaled/client.py | 53 +++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index af77a7e..cc9bdbb 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -56,9 +56,6 @@ class Client:
             exit_callback=self.__on_exit,
             daemonic=True,
         )
-        self._connector.start()
-        logging.info(f"ScaledClient: connect to {address}")
-
         self._function_to_function_id_cache: Dict[Callable, Tuple[bytes, Tuple[bytes, bytes]]] = dict()
 
         self._task_id_to_task: Dict[bytes, Task] = dict()
@@ -69,6 +66,12 @@ class Client:
 
         self._graph_task_id_to_futures: Dict[bytes, List[Future]] = dict()
 
+        # tasks are submitted by user threads, replies are processed by the thread of connector
+        self._lock = threading.Lock()
+
+        self._connector.start()
+        logging.info(f"ScaledClient: connect to {address}")
+
     def __del__(self):
         logging.info(f"ScaledClient: disconnect from {self._address}")
         self.disconnect()
@@ -84,13 +87,14 @@ class Client:
             function_id,
             [Argument(ArgumentType.Data, self._serializer.serialize_argument(data)) for data in all_args],
         )
-        self._task_id_to_task[task_id] = task
-        self._task_id_to_function[task_id] = (function_name, function_bytes)
+        future: Future = Future()
 
-        self.__on_buffer_task_send(task)
+        with self._lock:
+            self._task_id_to_task[task_id] = task
+            self._task_id_to_function[task_id] = (function_name, function_bytes)
+            self._task_id_to_future[task_id] = future
+            self.__on_buffer_task_send(task)
 
-        future: Future = Future()
-        self._task_id_to_future[task_id] = future
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -126,8 +130,9 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._connector.send(graph_task)
-        self._graph_task_id_to_futures[graph_task.task_id] = futures
+        with self._lock:
+            self._graph_task_id_to_futures[graph_task.task_id] = futures
+            self._connector.send(graph_task)
 
         # a key may be requested more than once, it has one future
         return_futures: Dict[str, Future] = dict(zip(dict.fromkeys(keys), futures))
@@ -175,7 +180,8 @@ class Client:
 
         if task_echo.status == TaskEchoStatus.FunctionNotExists:
             task = self._task_id_to_task[task_echo.task_id]
-            self.__on_buffer_task_send(task)
+            with self._lock:
+                self.__on_buffer_task_send(task)
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
@@ -198,11 +204,12 @@ class Client:
 
     def __on_function_response(self, response: FunctionResponse):
         assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
-        if response.function_id not in self._function_id_to_not_ready_tasks:
-            return
+        with self._lock:
+            if response.function_id not in self._function_id_to_not_ready_tasks:
+                return
 
-        for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
-            self._connector.send(task)
+            for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
+                self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
         if result.task_id not in self._task_id_to_future:
@@ -234,15 +241,19 @@ class Client:
             return
 
     def __on_exit(self):
-        if self._task_id_to_future:
-            logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
-            for task_id, future in self._task_id_to_future.items():
+        with self._lock:
+            task_id_to_future = self._task_id_to_future.copy()
+            graph_task_id_to_futures = self._graph_task_id_to_futures.copy()
+
+        if task_id_to_future:
+            logging.info(f"canceling {len(task_id_to_future)} task(s)")
+            for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
                 future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
-        if self._graph_task_id_to_futures:
-            logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
-            for task_id, futures in self._graph_task_id_to_futures.items():
+        if graph_task_id_to_futures:
+            logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
+            for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
                     future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
-- 
2.43.0


From 22e15fa8ce54c39ac8b3e2ca7d7b14b2d8734621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 20/23] fix: every final status ends its future, futures
 canceled by the user disturb nothing

---
 scaled/client.py | 49 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index cc9bdbb..2dcc838 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -191,7 +191,9 @@ class Client:
 
         self._task_id_to_task.pop(task_echo.task_id)
         self._task_id_to_function.pop(task_echo.task_id)
-        self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()
+        future = self._task_id_to_future[task_echo.task_id]
+        if not future.done():
+            future.set_running_or_notify_cancel()
 
     def __on_buffer_task_send(self, task):
         if task.function_id not in self._function_id_to_not_ready_tasks:
@@ -217,13 +219,41 @@ class Client:
 
         future = self._task_id_to_future.pop(result.task_id)
         if result.status == TaskStatus.Success:
-            future.set_result(self._serializer.deserialize_result(result.result))
+            self.__set_result(future, result.result)
             return
 
         if result.status == TaskStatus.Failed:
-            future.set_exception(pickle.loads(result.result))
+            self.__set_exception(future, self.__deserialize_exception(result.result))
             return
 
+        self.__set_exception(future, RuntimeError(f"task ended as {result.status.name}"))
+
+    def __set_result(self, future: Future, payload: bytes):
+        try:
+            result = self._serializer.deserialize_result(payload)
+        except Exception as e:
+            self.__set_exception(future, e)
+            return
+
+        if self.__is_open(future):
+            future.set_result(result)
+
+    def __set_exception(self, future: Future, exception: BaseException):
+        if self.__is_open(future):
+            future.set_exception(exception)
+
+    @staticmethod
+    def __deserialize_exception(payload: bytes) -> BaseException:
+        try:
+            return pickle.loads(payload)
+        except Exception as e:
+            return e
+
+    @staticmethod
+    def __is_open(future: Future) -> bool:
+        # a future canceled by the user takes no result
+        return future.running() or (not future.done() and future.set_running_or_notify_cancel())
+
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
         if graph_result.task_id not in self._graph_task_id_to_futures:
             return
@@ -231,15 +261,18 @@ class Client:
         futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
-                futures[i].set_result(self._serializer.deserialize_result(result))
+                self.__set_result(futures[i], result)
             return
 
         if graph_result.status == TaskStatus.Failed:
-            exception = pickle.loads(graph_result.results[0])
+            exception = self.__deserialize_exception(graph_result.results[0])
             for future in futures:
-                future.set_exception(exception)
+                self.__set_exception(future, exception)
             return
 
+        for future in futures:
+            self.__set_exception(future, RuntimeError(f"graph task ended as {graph_result.status.name}"))
+
     def __on_exit(self):
         with self._lock:
             task_id_to_future = self._task_id_to_future.copy()
@@ -249,14 +282,14 @@ class Client:
             logging.info(f"canceling {len(task_id_to_future)} task(s)")
             for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
         if graph_task_id_to_futures:
             logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
             for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         if fn in self._function_to_function_id_cache:
-- 
2.43.0


From fed8ece690530072a16ad7a4ac4a99d14094a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 21/23] fix: a task refused for lack of workers ends its future
 instead of the client

---
 scaled/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 2dcc838..e426adf 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -185,7 +185,12 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
-            raise NotImplementedError("please implement that handles no worker error")
+            self._task_id_to_task.pop(task_echo.task_id)
+            self._task_id_to_function.pop(task_echo.task_id)
+            self.__set_exception(
+                self._task_id_to_future.pop(task_echo.task_id), RuntimeError("scheduler has no worker to run the task")
+            )
+            return
 
         assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
 
-- 
2.43.0


From 23354f97de53c6804f22de52a19a56f6747c834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:56 +0000
Subject: [PATCH 22/23] fix: answer every task of a processor: results that
 cannot be serialized, functions that cannot be loaded, exits, late functions

---
 scaled/worker/agent/processor/processor.py | 57 +++++++++++++++-------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 47d23ab..64be198 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,8 @@ import multiprocessing
 import pickle
 import threading
 import time
+import traceback
+from typing import Callable
 from typing import Optional
 
 import tblib.pickling_support
@@ -102,37 +104,58 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         task = self._current_task
+        if task is None or task.function_id != response.function_id:
+            # nobody waits for it any more, e.g. it was requested by the processor before this one
+            logging.warning(f"no task waits for function_id={response.function_id.hex()}, ignored")
+            return
+
         self._current_task = None
-        self.__process_task(task)
+        begin = time.monotonic()
+        try:
+            function = self._serializer.deserialize_function(response.content)
+        except (Exception, SystemExit) as e:
+            self.__send_failure(task, e, begin)
+            return
+
+        self._cache_cleaner.add_function(response.function_id, function)
+        self.__process_task(task, function)
 
     def __on_received_task(self, task: Task):
-        if self._cache_cleaner.get_function(task.function_id) is not None:
-            self.__process_task(task)
+        # the cache may drop the function at any moment, the one found here is the one to run
+        function = self._cache_cleaner.get_function(task.function_id)
+        if function is not None:
+            self.__process_task(task, function)
             return
 
         self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
         self._current_task = task
 
-    def __process_task(self, task: Task):
+    def __process_task(self, task: Task, function: Callable):
         begin = time.monotonic()
         try:
-            function = self._cache_cleaner.get_function(task.function_id)
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-            self._connector.send_immediately(
-                TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
-            )
+        except (Exception, SystemExit) as e:
+            self.__send_failure(task, e, begin)
+            return
+
+        self._connector.send_immediately(
+            TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
+        )
 
+    def __send_failure(self, task: Task, exception: BaseException, begin: float):
+        logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
+        try:
+            content = pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
         except Exception as e:
-            logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
-            self._connector.send_immediately(
-                TaskResult(
-                    task.task_id,
-                    TaskStatus.Failed,
-                    time.monotonic() - begin,
-                    pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL),
-                )
+            # exceptions may hold anything, also what cannot be pickled
+            description = "".join(traceback.format_exception_only(type(exception), exception)).strip()
+            content = pickle.dumps(
+                RuntimeError(f"{description} (cannot be pickled: {type(e).__name__})"), protocol=pickle.HIGHEST_PROTOCOL
             )
+
+        self._connector.send_immediately(
+            TaskResult(task.task_id, TaskStatus.Failed, time.monotonic() - begin, content)
+        )
-- 
2.43.0


From eb3b7cdcb3cca0d05e5b0ccecd206f22ecc9393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:42 +0000
Subject: [PATCH 23/23] fix: never turn away the nodes of an accepted graph for
 want of room

---
 scaled/scheduler/graph_manager.py | 3 +++
 scaled/scheduler/mixins.py        | 4 ++++
 scaled/scheduler/task_manager.py  | 4 +++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index aa77e30..3bc40c4 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -130,6 +130,9 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         await self._binder.send(info.client, GraphTaskResult(graph_task_id, result.status, [result.result]))
         return True
 
+    def is_graph_node(self, task_id: bytes) -> bool:
+        return task_id in self._task_id_to_graph_task_id
+
     async def routine(self):
         client, graph_task = await self._unassigned.get()
         await self.__add_new_graph(client, graph_task)
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 73851cb..6abcfa2 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -79,6 +79,10 @@ class GraphTaskManager(metaclass=abc.ABCMeta):
     async def on_task_done(self, result: TaskResult) -> bool:
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    def is_graph_node(self, task_id: bytes) -> bool:
+        raise NotImplementedError()
+
 
 class TaskManager(metaclass=abc.ABCMeta):
     @abc.abstractmethod
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1a67ae1..04f9b5a 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -87,8 +87,10 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.FunctionNotExists))
             return
 
+        # nodes of an accepted graph are never turned away, nobody would submit them again
         if (
-            not self._worker_manager.has_available_worker()
+            not self._graph_manager.is_graph_node(task.task_id)
+            and not self._worker_manager.has_available_worker()
             and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()
         ):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.NoWorker))
-- 
2.43.0

