From 855e9d1bed950fa75942ac09a63f9d5186ebd398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 01/73] fix: do not set SO_REUSEPORT for unix sockets in
 bind_socket

---
 aiomisc/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index 9613245..b496c16 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -91,7 +91,11 @@ def bind_socket(
     if reuse_addr:
         sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
 
-    if reuse_port:
+    unix_address_family = getattr(socket, "AF_UNIX", None)
+
+    # SO_REUSEPORT is only meaningful for the internet sockets, and
+    # setting it for a unix socket is an error for the modern kernels
+    if reuse_port and sock.family != unix_address_family:
         sock_set_reuseport(sock, True)
 
     sock_set_nodelay(sock)
@@ -99,7 +103,6 @@ def bind_socket(
     for level, option, value in options:
         sock.setsockopt(level, option, value)
 
-    unix_address_family = getattr(socket, "AF_UNIX", None)
     if sock.family == unix_address_family:
         proto_name = proto_name or "unix"
         sock.bind(address)
-- 
2.43.0


From ccb66fd9bd003d19112fdc9655f3a6b89f3f9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 02/73] fix: closing of the never iterated threaded iterable
 hangs

---
 aiomisc/iterator_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..d8926f2 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -216,6 +216,9 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
+        if self.closed and self.__gen_task is None:
+            # The generator has never been started, nothing to wait for
+            return
         await self.__close_event.wait()
         if self.__gen_task:
             await asyncio.gather(self.__gen_task, return_exceptions=True)
-- 
2.43.0


From 4c2e7fca39a12e4abfa57037d66eb12bc8bbb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 03/73] fix: last item of the threaded iterable might be lost
 on close

---
 aiomisc/iterator_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index d8926f2..3c734d4 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -122,11 +122,14 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            # Must be read before trying to get an item, otherwise the item
+            # which was put right before closing might be lost
+            closed = self.is_closed
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                if closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
-- 
2.43.0


From f44f8e5c8449adb0fa19d3b61650ac4de7b6650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 04/73] fix: threaded iterable with full queue blocks its
 thread forever after close

---
 aiomisc/iterator_wrapper.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 3c734d4..7df89f7 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -4,6 +4,7 @@ from abc import abstractmethod
 from collections import deque
 from concurrent.futures import Executor
 from queue import Empty as QueueEmpty
+from queue import Full as QueueFull
 from queue import Queue
 from time import time
 from types import TracebackType
@@ -30,7 +31,7 @@ class ChannelClosed(RuntimeError):
 
 class QueueWrapperBase:
     @abstractmethod
-    def put(self, item: Any) -> None:
+    def put(self, item: Any, timeout: Optional[float] = None) -> None:
         raise NotImplementedError
 
     def get(self) -> Any:
@@ -48,7 +49,7 @@ class DequeWrapper(QueueWrapperBase):
             raise QueueEmpty
         return self.queue.popleft()
 
-    def put(self, item: Any) -> None:
+    def put(self, item: Any, timeout: Optional[float] = None) -> None:
         return self.queue.append(item)
 
 
@@ -58,8 +59,8 @@ class QueueWrapper(QueueWrapperBase):
     def __init__(self, max_size: int) -> None:
         self.queue: Queue = Queue(maxsize=max_size)
 
-    def put(self, item: Any) -> None:
-        return self.queue.put(item)
+    def put(self, item: Any, timeout: Optional[float] = None) -> None:
+        return self.queue.put(item, timeout=timeout)
 
     def get(self) -> Any:
         return self.queue.get_nowait()
@@ -74,6 +75,7 @@ def make_queue(max_size: int = 0) -> QueueWrapperBase:
 class FromThreadChannel:
     SLEEP_LOW_THRESHOLD = 0.0001
     SLEEP_DIFFERENCE_DIVIDER = 10
+    PUT_CHECK_INTERVAL = 0.05
 
     __slots__ = ("queue", "__closed", "__last_received_item")
 
@@ -99,10 +101,17 @@ class FromThreadChannel:
         self.close()
 
     def put(self, item: Any) -> None:
-        if self.is_closed:
-            raise ChannelClosed
+        while True:
+            # The queue might be full and never be read after closing
+            if self.is_closed:
+                raise ChannelClosed
+
+            try:
+                self.queue.put(item, timeout=self.PUT_CHECK_INTERVAL)
+                break
+            except QueueFull:
+                continue
 
-        self.queue.put(item)
         self.__last_received_item = time()
 
     def _compute_sleep_time(self) -> Union[float, int]:
-- 
2.43.0


From 025d5ec8a25d4df6582c01d7b5081d5a3ac4b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 05/73] fix: cancelling of a context reader cancels all other
 readers

---
 aiomisc/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..bd2d31b 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,9 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # The future is shared between all the readers of this key,
+        # so cancelling one of them must not affect others
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From 8f7f50f8e8f72ac6a60586762b372cbda3dad530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 06/73] fix: restarted periodic callback can not be stopped

---
 aiomisc/periodic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/periodic.py b/aiomisc/periodic.py
index 78ad86d..2a35b22 100644
--- a/aiomisc/periodic.py
+++ b/aiomisc/periodic.py
@@ -58,8 +58,10 @@ class PeriodicCallback(EventLoopMixin):
             suppress_exceptions=suppress_exceptions,
         )
 
-        def clean_task(_: Any) -> None:
-            self._task = None
+        def clean_task(task: asyncio.Future) -> None:
+            # Another task might be already started
+            if self._task is task:
+                self._task = None
 
         self._task.add_done_callback(clean_task)
 
-- 
2.43.0


From 0b3660deca5c78420dcf821bf121183d4e1ccd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 07/73] fix: DNS names are lost when a deeper zone has been
 added

---
 aiomisc/service/dns/tree.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..be1f32b 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -39,21 +39,23 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        prefix: List[str] = []
+        longest_prefix: K = ()
         value = None
-        part: Hashable
+        part: str
         if node.value is not None:
             value = node.value
         for part in key:
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
+                prefix.append(part)
                 if node.value is not None:
                     value = node.value
+                    longest_prefix = tuple(prefix)
             else:
                 break
 
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return longest_prefix, value
-- 
2.43.0


From 14fe692092b7091332211983267bbe3866676d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 08/73] fix: DNS zone accepts records of a foreign domain with
 the same suffix

---
 aiomisc/service/dns/zone.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..cd2af6b 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,11 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        return (
+            self.name == "." or
+            record.name == self.name or
+            record.name.endswith(f".{self.name}")
+        )
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From 0b9954a23798d4c620beece382677e24e3548226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 09/73] fix: most of DNS record types are not hashable

---
 aiomisc/service/dns/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..616a50f 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -74,7 +74,11 @@ class DNSClass(enum.IntEnum):
 
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
-        return hash(self.data)
+        # Equality is defined by ``attrs`` which might be not hashable
+        # and contain case-insensitive labels
+        return hash(
+            tuple(repr(getattr(self, attr)).lower() for attr in self.attrs),
+        )
 
     @classmethod
     @abstractmethod
-- 
2.43.0


From e1f3234e68a2819fe76a7cbec066adfbe5d62dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 10/73] fix: thread waiting for the cancelled coroutine hangs

---
 aiomisc/thread_pool.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..dff2dee 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -465,10 +465,12 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
-        if self.__exception is None:
+        try:
             self.__result = task.result()
-        self.__event.set()
+        except BaseException as e:
+            self.__exception = e
+        finally:
+            self.__event.set()
 
     def _awaiter(self) -> None:
         task: asyncio.Future = self.__loop.create_task(self.__coro)
-- 
2.43.0


From 136f3a0d236d72f0f16a6f727e452fc6232c7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 11/73] fix: thread pool shutdown rejects futures from a
 foreign thread

---
 aiomisc/thread_pool.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index dff2dee..f915ab4 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -79,6 +79,22 @@ def _set_workitem_result(
         future.set_result(result)
 
 
+def _reject_future(future: asyncio.Future, exception: BaseException) -> None:
+    loop = future.get_loop()
+
+    if future.done() or loop.is_closed():
+        return
+
+    if loop.is_running() and asyncio._get_running_loop() is not loop:
+        # The event loop is running in the different thread
+        loop.call_soon_threadsafe(
+            _set_workitem_result, future, None, exception,
+        )
+        return
+
+    future.set_exception(exception)
+
+
 class WorkItem(WorkItemBase):
 
     def __call__(self, no_return: bool = False) -> None:
@@ -272,10 +288,9 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
             self.__tasks.close()
 
             while futures:
-                future = futures.pop()
-                if future.done():
-                    continue
-                future.set_exception(ThreadPoolException("Pool closed"))
+                _reject_future(
+                    futures.pop(), ThreadPoolException("Pool closed"),
+                )
 
             if not wait:
                 return None
-- 
2.43.0


From 240d6634ba5af977f12278c1ea4cbbf70ac70fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 12/73] fix: pool loses capacity and instances on failed or
 cancelled acquire

---
 aiomisc/pool.py | 93 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 31 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..d6eef8e 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -58,6 +58,8 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_used",
     ) + EventLoopMixin.__slots__
 
+    __slot_released = object()
+
     _tasks: Set[Any]
     _used: Set[Any]
     _instances: asyncio.Queue
@@ -119,9 +121,15 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     def __len__(self) -> int:
         return self._len
 
+    def __release_slot(self) -> None:
+        self._semaphore.release()
+        # Someone might be waiting for an instance, but it's possible that
+        # there are no instances left, so let the waiter to create a new one
+        self._instances.put_nowait(self.__slot_released)
+
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
+        self.__release_slot()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -133,7 +141,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     async def __create_new_instance(self) -> None:
         await self._semaphore.acquire()
 
-        instance: Any = await self._create_instance()
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self.__release_slot()
+            raise
+
         self._len += 1
 
         if self._recycle:
@@ -142,26 +155,38 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         await self._instances.put(instance)
 
+    async def __get_instance(self) -> T:
+        while True:
+            if not self._semaphore.locked():
+                await self.__create_new_instance()
+
+            instance = await self._instances.get()
+
+            if instance is not self.__slot_released:
+                return instance
+
     async def __acquire(self) -> T:
-        if not self._semaphore.locked():
-            await self.__create_new_instance()
+        while True:
+            instance = await self.__get_instance()
+            self._used.add(instance)
 
-        instance = await self._instances.get()
+            try:
+                if await self._check_instance(instance):
+                    return instance
+            except Exception:
+                log.exception("Check instance %r failed", instance)
+            except BaseException:
+                await self.__release(instance)
+                raise
 
-        try:
-            result = await self._check_instance(instance)
-        except Exception:
-            log.exception("Check instance %r failed", instance)
-            self.__recycle_instance(instance)
-        else:
-            if not result:
+            if instance in self._used:
                 self.__recycle_instance(instance)
-                return await self.__acquire()
-
-        self._used.add(instance)
-        return instance
 
     async def __release(self, instance: Any) -> None:
+        if instance not in self._used:
+            # The pool has been closed and the instance has been destroyed
+            return
+
         self._used.discard(instance)
 
         if self._recycle and self._recycle_times[instance] < self.loop.time():
@@ -179,27 +204,33 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         while self._instances.qsize():
             try:
-                instances.append(self._instances.get_nowait())
+                instance = self._instances.get_nowait()
             except asyncio.QueueEmpty:
                 break
 
+            if instance is not self.__slot_released:
+                instances.append(instance)
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
             except Exception:
                 log.exception("Exception when task execution")
 
-        await asyncio.wait_for(
-            asyncio.gather(
-                *[
-                    self.__create_task(
-                        log_exception(self._destroy_instance(instance)),
-                    )
-                    for instance in instances
-                ],
-                return_exceptions=True,
-            ),
-            timeout=timeout,
-        )
-
-        await cancel_tasks(self._tasks)
+        try:
+            await asyncio.wait_for(
+                asyncio.gather(
+                    *[
+                        self.__create_task(
+                            log_exception(self._destroy_instance(instance)),
+                        )
+                        for instance in instances
+                    ],
+                    # recycled instances have to be destroyed too
+                    self._recycle_bin.join(),
+                    return_exceptions=True,
+                ),
+                timeout=timeout,
+            )
+        finally:
+            await cancel_tasks(self._tasks)
-- 
2.43.0


From a6adda66e02619e0c20600723a3b8bb62668cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 13/73] fix: failed service stop interrupts stopping of other
 services

---
 aiomisc/entrypoint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..73cd30a 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -377,7 +377,12 @@ class Entrypoint:
                     log.warning("Failed to stop service %r:\n%r", svc, e)
                     log.debug("Service stop failed traceback", exc_info=True)
 
-            await asyncio.gather(*tasks)
+            # Failed stop of the one service must not interrupt others
+            results = await asyncio.gather(*tasks, return_exceptions=True)
+
+            for result in results:
+                if isinstance(result, BaseException):
+                    raise result
         finally:
             await cancel_tasks(tasks)
 
-- 
2.43.0


From 120e4b6b489c227bc83cef9ae64fe0f84b6e349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 14/73] fix: TCP DNS server fails on requests split across
 segments

---
 aiomisc/service/dns/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..74cd3f1 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -114,10 +114,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
-
-                if not data:
-                    break
+                packet = await reader.readexactly(length)
 
                 reply_body, _ = self.handle_request(data=packet, addr=addr)
 
-- 
2.43.0


From 8f95612efd3485f302eb6160ad7645cf6afad783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 15/73] fix: cancelling of the robust client is delayed or
 suppressed

---
 aiomisc/service/tcp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..0fa62ec 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -180,7 +180,7 @@ class RobustTCPClient(TCPClient, ABC):
                     "reconnecting after %.3f seconds",
                     self.reconnect_timeout,
                 )
-            finally:
-                if not self.connected.is_set():
-                    return
-                await asyncio.sleep(self.reconnect_timeout)
+
+            if not self.connected.is_set():
+                return
+            await asyncio.sleep(self.reconnect_timeout)
-- 
2.43.0


From 9f36d65edc8814b73a546b86fe5cc518fca413c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 16/73] fix: TLS clients never verify the server certificate

---
 aiomisc/service/tls.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..edb1241 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -92,6 +92,10 @@ class SSLOptions(SSLOptionsBase):
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
             # Post-handshake authentication is required
             context.post_handshake_auth = True
+        elif self.purpose is ssl.Purpose.SERVER_AUTH and self.verify:
+            log.debug("Set client-side cert verification")
+            context.check_hostname = True
+            context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
         else:
             # Disable server-side cert verification
             context.check_hostname = False
-- 
2.43.0


From af28ea6a1dbd5129866fe1598b209f5399d22a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 17/73] fix: JSON formatter fails for custom log levels

---
 aiomisc_log/formatter/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 6f8a526..765bf04 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -99,7 +99,9 @@ class JSONLogFormatter(logging.Formatter):
         payload = {
             "@fields": data,
             "msg": self.formatMessage(record),
-            "level": self.LEVELS[record.levelno],
+            "level": self.LEVELS.get(
+                record.levelno, record.levelname.lower(),
+            ),
         }   # type: JSONObjType
 
         if self.datefmt:
-- 
2.43.0


From 589ba788e0bc3e22d5fa16b3c09b7432849d0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 18/73] fix: truncated DNS replies are malformed and TCP ones
 marked as truncated

---
 aiomisc/service/dns/service.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 74cd3f1..6125b0d 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -60,12 +60,17 @@ class DNSServer:
 
             reply_body = reply.pack()
 
-            if len(reply_body) > 512:
+            if should_truncate and len(reply_body) > 512:
                 reply.header.tc = 1
-                reply_body = reply.pack()
 
-            if should_truncate:
-                reply_body = reply_body[:edns_max_size]
+                if (
+                    edns_max_size is not None and
+                    len(reply_body) > max(edns_max_size, 512)
+                ):
+                    # A part of the packed message is not a valid message
+                    reply.rr.clear()
+
+                reply_body = reply.pack()
         except Exception as e:
             log.exception(
                 "Failed to process %s request from %r: %s",
-- 
2.43.0


From e7da8039be280eacb0c8434bdd04240a85d51f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 19/73] fix: JSON formatter loses records with not serializable
 extras

---
 aiomisc_log/formatter/json.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 765bf04..e37bd97 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -21,7 +21,19 @@ DumpsType = Callable[[JSONObjType, Any], str]
 def _dump_json(obj: JSONObjType, *args: Any, **kwargs: Any) -> str:
     kwargs["default"] = repr
     kwargs["ensure_ascii"] = False
-    return json.dumps(obj, *args, **kwargs)
+    try:
+        return json.dumps(obj, *args, **kwargs)
+    except (TypeError, ValueError):
+        # The record contains something which can't be represented in JSON
+        # like circular references or dictionaries with complex keys.
+        fields = {}
+        for key, value in obj["@fields"].items():
+            try:
+                json.dumps(value, *args, **kwargs)
+                fields[key] = value
+            except (TypeError, ValueError):
+                fields[key] = repr(value)
+        return json.dumps(dict(obj, **{"@fields": fields}), *args, **kwargs)
 
 
 class JSONLogFormatter(logging.Formatter):
-- 
2.43.0


From bdf66be8fa44657f4c7d22be7d919844a51fccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 20/73] fix: threaded log handler blocks the application and
 might be deadlocked

---
 aiomisc/log.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..4672534 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -65,7 +65,6 @@ class ThreadedHandler(logging.Handler):
         while not self._close_event.is_set():
             self._flush_event.wait(self._flush_interval)
             try:
-                self.acquire()
                 while True:
                     record = queue.get(timeout=self._flush_interval)
                     if record is None:
@@ -74,8 +73,6 @@ class ThreadedHandler(logging.Handler):
                         self._target.handle(record)
             except Empty:
                 pass
-            finally:
-                self.release()
         self._statistic.threads -= 1
 
 
-- 
2.43.0


From 97401aa5045f20d4fdd92301b42a01aaa64af3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 21/73] fix: log record raises an exception when log buffer is
 full

---
 aiomisc/log.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 4672534..f5a9c8d 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,7 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -55,7 +55,12 @@ class ThreadedHandler(logging.Handler):
 
     def emit(self, record: logging.LogRecord) -> None:
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
-- 
2.43.0


From 3670cd7f5f9177c211eb628267234ef3453f5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 22/73] fix: buffered log records are lost when the handler is
 being closed

---
 aiomisc/log.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index f5a9c8d..20a6f31 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -24,6 +24,8 @@ class ThreadedHandlerStatistic(Statistic):
 
 
 class ThreadedHandler(logging.Handler):
+    CLOSE_TIMEOUT = 10
+
     def __init__(
         self, target: logging.Handler, flush_interval: float = 0.1,
         buffered: bool = True, queue_size: int = 0,
@@ -43,10 +45,15 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        self._queue.put(None)
-        del self._queue
-        self.flush()
-        self._close_event.set()
+        if not self._close_event.is_set():
+            self._close_event.set()
+            self._queue.put(None)
+            self.flush()
+
+        if self._thread.is_alive():
+            # Otherwise buffered records will be lost on exit
+            self._thread.join(self.CLOSE_TIMEOUT)
+
         super().close()
 
     def flush(self) -> None:
@@ -54,6 +61,9 @@ class ThreadedHandler(logging.Handler):
         self._flush_event.set()
 
     def emit(self, record: logging.LogRecord) -> None:
+        if self._close_event.is_set():
+            return
+
         if self._buffered:
             try:
                 self._queue.put_nowait(record)
@@ -67,18 +77,20 @@ class ThreadedHandler(logging.Handler):
 
     def _in_thread(self) -> None:
         queue = self._queue
-        while not self._close_event.is_set():
-            self._flush_event.wait(self._flush_interval)
-            try:
-                while True:
-                    record = queue.get(timeout=self._flush_interval)
-                    if record is None:
-                        return
-                    with suppress(Exception):
-                        self._target.handle(record)
-            except Empty:
-                pass
-        self._statistic.threads -= 1
+        try:
+            while True:
+                self._flush_event.wait(self._flush_interval)
+                try:
+                    while True:
+                        record = queue.get(timeout=self._flush_interval)
+                        if record is None:
+                            return
+                        with suppress(Exception):
+                            self._target.handle(record)
+                except Empty:
+                    pass
+        finally:
+            self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From fd5ce9714d57a873fb31ea29f78011dac8fa278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 23/73] fix: worker is lost forever when task is not
 serializable

---
 aiomisc/worker_pool.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..c3c39e1 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -232,14 +232,10 @@ class WorkerPool:
                         )
                     break
                 except Exception as e:
+                    # The payload can't be serialized or deserialized, it's
+                    # not a reason to lose the worker.
                     if not result_future.done():
                         result_future.set_exception(e)
-
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
-- 
2.43.0


From 54f5dee930929be06e6ca51608f4947bd7c14c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 24/73] fix: worker is not respawned when the task exits with
 zero status

---
 aiomisc_worker/forking.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiomisc_worker/forking.py b/aiomisc_worker/forking.py
index 5999d40..e061b17 100644
--- a/aiomisc_worker/forking.py
+++ b/aiomisc_worker/forking.py
@@ -16,6 +16,8 @@ from .worker import bad_initializer, worker
 
 PROCESSES: MutableMapping[int, bytes] = {}
 STOPPING = Event()
+# Exit status of the worker process when the pool has closed the connection
+EXIT_CONNECTION_LOST = 68
 EXIT_LOCK = Lock()
 
 
@@ -57,7 +59,7 @@ def fork(worker_id: bytes, cookie: bytes, address: AddressType) -> None:
     PROCESSES = {}
     signal.signal(INT_SIGNAL, DEFAULT_SIGNAL_HANDLER)
     worker(address, cookie, worker_id)
-    raise SystemExit(0)
+    raise SystemExit(EXIT_CONNECTION_LOST)
 
 
 def main() -> int:
@@ -111,7 +113,11 @@ def main() -> int:
         log_func = log.debug if status == 0 else log.warning
         log_func("Worker PID: %d exited with status %d", pid, status)
 
-        if status == 0:
+        # Any other exit is caused by the task or by something external
+        if (
+            os.WIFEXITED(status) and
+            os.WEXITSTATUS(status) == EXIT_CONNECTION_LOST
+        ):
             continue
         worker_id = PROCESSES.pop(pid, None)
         if worker_id is None:
-- 
2.43.0


From b4ed758aa536d826ff864a68d8e563b65fe2ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 25/73] fix: worker pool create_task hangs when the pool is
 closed

---
 aiomisc/worker_pool.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index c3c39e1..7e86407 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -314,12 +314,18 @@ class WorkerPool:
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
     ) -> T:
+        if self.__closing:
+            raise RuntimeError("Pool closed")
+
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        await self.tasks.put((
-            func, args, kwargs, result_future, process_future,
-        ))
+        # This task will be cancelled when the pool is being closed
+        await self.__task(
+            self.tasks.put((
+                func, args, kwargs, result_future, process_future,
+            )),
+        )
 
         pid: int = await process_future
 
-- 
2.43.0


From c6a648a1939b26409769f349acdc9dcbb20ec354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 26/73] fix: unauthenticated client is able to close the worker
 pool

---
 aiomisc/worker_pool.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 7e86407..404b829 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -154,16 +154,7 @@ class WorkerPool:
             if self.__closing:
                 proto.close()
 
-        if packet_type == PacketTypes.BAD_INITIALIZER:
-            packet_type, exc = await proto.receive()
-            if packet_type != PacketTypes.EXCEPTION:
-                await proto.send(PacketTypes.BAD_PACKET)
-            else:
-                set_exception(self.__futures, exc)
-            await self.close()
-            return
-
-        if packet_type != PacketTypes.AUTH:
+        if packet_type not in (PacketTypes.AUTH, PacketTypes.BAD_INITIALIZER):
             await proto.send(PacketTypes.BAD_PACKET)
             if writer.can_write_eof():
                 writer.write_eof()
@@ -179,13 +170,22 @@ class WorkerPool:
             digestmod=hashlib.sha256,
         ).digest()
 
-        if expected_digest != digest:
+        if not hmac.compare_digest(expected_digest, digest):
             await proto.send(PacketTypes.AUTH_FAIL)
             if writer.can_write_eof():
                 writer.write_eof()
             log.debug("Bad digest %r expected %r", digest, expected_digest)
             return
 
+        if packet_type == PacketTypes.BAD_INITIALIZER:
+            packet_type, exc = await proto.receive()
+            if packet_type != PacketTypes.EXCEPTION:
+                await proto.send(PacketTypes.BAD_PACKET)
+            else:
+                set_exception(self.__futures, exc)
+            await self.close()
+            return
+
         await proto.send(PacketTypes.AUTH_OK)
         self._statistic.processes += 1
         self._statistic.spawning += 1
-- 
2.43.0


From 25afa97b878d0ad088e691b118cc865771796b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 27/73] fix: cancelled task of the worker pool breaks another
 tasks

---
 aiomisc/worker_pool.py   | 25 +++++++++++++++++++++----
 aiomisc_worker/worker.py | 22 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 404b829..770f3a6 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -4,6 +4,7 @@ import hmac
 import os
 import socket
 import sys
+from contextlib import suppress
 from inspect import Traceback
 from multiprocessing import ProcessError
 from os import chmod, urandom
@@ -52,6 +53,7 @@ class WorkerPool:
     pids: Set[int]
 
     SERVER_CLOSE_TIMEOUT = 1
+    INTERRUPT_INTERVAL = 0.1
 
     if hasattr(socket, "AF_UNIX"):
         def _create_socket(self) -> None:
@@ -128,6 +130,7 @@ class WorkerPool:
         self.__loop: Optional[asyncio.AbstractEventLoop] = None
         self.__futures: Set[asyncio.Future] = set()
         self.__task_store: Set[asyncio.Task] = set()
+        self.__running: Dict[int, asyncio.Future] = {}
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
         self._statistic = WorkerPoolStatistic(name=statistic_name)
@@ -208,6 +211,7 @@ class WorkerPool:
 
                 try:
                     process_future.set_result(pid)
+                    self.__running[pid] = result_future
                     await proto.send((PacketTypes.REQUEST, func, args, kwargs))
                     packet_type, payload = await proto.receive()
 
@@ -236,6 +240,8 @@ class WorkerPool:
                     # not a reason to lose the worker.
                     if not result_future.done():
                         result_future.set_exception(e)
+                finally:
+                    self.__running.pop(pid, None)
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
@@ -327,15 +333,26 @@ class WorkerPool:
             )),
         )
 
-        pid: int = await process_future
-
         try:
+            await process_future
             return await result_future
         except asyncio.CancelledError:
-            log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-            os.kill(pid, SIGNAL)
+            result_future.cancel()
+            if process_future.done() and not self.__closing:
+                self.__task(self.__interrupt_worker(result_future))
             raise
 
+    async def __interrupt_worker(self, result_future: asyncio.Future) -> None:
+        pids = [p for p, f in self.__running.items() if f is result_future]
+        for pid in pids:
+            # The signal will be ignored by the worker until the function is
+            # being executed, and the worker might be already doing a next one
+            while self.__running.get(pid) is result_future:
+                log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
+                with suppress(ProcessLookupError):
+                    os.kill(pid, SIGNAL)
+                await asyncio.sleep(self.INTERRUPT_INTERVAL)
+
     async def __aenter__(self) -> "WorkerPool":
         await self.start()
         return self
diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..107b28a 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -7,12 +7,26 @@ import signal
 import socket
 import sys
 from types import TracebackType
-from typing import Any, Optional, Type
+from typing import Any, Callable, Optional, Type
 
 from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
+# Cancelling is allowed only when the task function is being executed,
+# otherwise the signal breaks the communication with the pool.
+CANCELLABLE = False
+
+
+def run_task(func: Callable[..., Any], *args: Any, **kwargs: Any) -> Any:
+    global CANCELLABLE
+    CANCELLABLE = True
+    try:
+        return func(*args, **kwargs)
+    finally:
+        CANCELLABLE = False
+
+
 def execute(protocol: SocketIOProtocol) -> None:
     pid = os.getpid()
     try:
@@ -29,7 +43,7 @@ def execute(protocol: SocketIOProtocol) -> None:
     try:
         protocol.send((
             PacketTypes.RESULT,
-            func(*args, **kwargs),
+            run_task(func, *args, **kwargs),
         ))
     except asyncio.CancelledError:
         logging.exception(
@@ -53,6 +67,10 @@ def execute(protocol: SocketIOProtocol) -> None:
 
 
 def on_cancel_signal(*_: Any) -> None:
+    global CANCELLABLE
+    if not CANCELLABLE:
+        return
+    CANCELLABLE = False
     raise asyncio.CancelledError
 
 
-- 
2.43.0


From 0e9885241bcabfcb4480a6839d9aee082b157b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 28/73] fix: large worker replies might be sent partially

---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..af5999e 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -67,7 +67,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
-- 
2.43.0


From 4b97e8e3b95ad5cc18d9295d8945da57eb80b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 29/73] fix: exception which is false in boolean context is
 lost by thread pool

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index f915ab4..82d1926 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,7 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
-- 
2.43.0


From 38040456f2d09536ad2e449a3886d96731f4b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 30/73] fix: thread function raising StopIteration hangs the
 caller forever

---
 aiomisc/thread_pool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 82d1926..0e1093c 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,6 +73,13 @@ def _set_workitem_result(
     if future.done():
         return
 
+    if isinstance(exception, StopIteration):
+        # StopIteration can't be raised into the Future, and the future
+        # would never be done
+        error = RuntimeError(f"thread function raised {exception!r}")
+        error.__cause__ = exception
+        exception = error
+
     if exception is not None:
         future.set_exception(exception)
     else:
-- 
2.43.0


From 0aee4bc675feb09447f6d1d777db061e7666ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 31/73] fix: interrupt signal is not a failed shutdown, and
 services are stopped only once

---
 aiomisc/entrypoint.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 73cd30a..dd43386 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -178,6 +178,8 @@ class Entrypoint:
         self._tasks: MutableSet[asyncio.Task] = WeakSet()
         self._thread_pool: Optional[ExecutorType] = None
         self._closing: Optional[asyncio.Event] = None
+        self._exit_task: Optional[asyncio.Task] = None
+        self._interrupt_task: Optional[asyncio.Task] = None
 
         if catch_signals is None and is_main_thread():
             # Apply default catch signals only if the entrypoint is creating
@@ -286,6 +288,13 @@ class Entrypoint:
     async def __aexit__(
         self, exc_type: Any, exc_val: Any, exc_tb: Any,
     ) -> None:
+        if self._interrupt_task is not None:
+            # The shutdown has been already started by the interrupt signal,
+            # it must not be performed twice
+            self._exit_task = asyncio_current_task(self.loop)
+            await asyncio.wait([self._interrupt_task])
+            return
+
         await self._stop(exc_val)
 
     if sys.version_info < (3, 9):
@@ -395,7 +404,7 @@ class Entrypoint:
         current_task = asyncio_current_task(self.loop)
         await cancel_tasks(
             filter(
-                lambda x: x is not current_task,
+                lambda x: x not in (current_task, self._exit_task),
                 asyncio_all_tasks(self._loop),
             ),
         )
@@ -417,24 +426,35 @@ class Entrypoint:
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
 
     def _on_interrupt(self, loop: asyncio.AbstractEventLoop) -> None:
+        if self._interrupt_task is not None:
+            return
+
         log.warning("Interrupt signal received, shutting down...")
         task = loop.create_task(
             self._stop(RuntimeError("Interrupt signal received")),
         )
-        handle = loop.call_later(self.shutdown_timeout, task.cancel)
+        self._interrupt_task = task
+        timed_out = False
+
+        def on_shutdown_timeout() -> None:
+            nonlocal timed_out
+            timed_out = task.cancel()
+
+        handle = loop.call_later(self.shutdown_timeout, on_shutdown_timeout)
 
         def on_shutdown_finish(task: asyncio.Future) -> None:
-            nonlocal handle, loop
+            handle.cancel()
 
-            if task.cancelled():
+            if timed_out:
                 log.warning(
                     "Shutdown did not happen in %s seconds, aborting.",
                     self.shutdown_timeout,
                 )
-            handle.cancel()
-            loop.stop()
 
-            if task.cancelled():
+            if timed_out or not (self._loop_owner and self._exit_task):
+                loop.stop()
+
+            if timed_out:
                 # 70 from sysexits.h means "internal software error"
                 raise SystemExit(70)
 
-- 
2.43.0


From a97437a8cd7da42497f1d8067453480e9b839848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 32/73] fix: entrypoint.closing() called after the shutdown
 began never returned

---
 aiomisc/entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index dd43386..fb91a8d 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -410,8 +410,11 @@ class Entrypoint:
         )
 
     async def graceful_shutdown(self, exception: Exception) -> None:
-        if self._closing:
-            self._closing.set()
+        if self._closing is None:
+            # closing() might be called later
+            self._closing = asyncio.Event()
+
+        self._closing.set()
 
         await cancel_tasks(set(self._tasks))
         await self.stop_services(*self._services, exc=exception)
-- 
2.43.0


From c610c0c065283be74e4d98dc97ccb84301767f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 33/73] fix: unpicklable exception of a task loses the pool's
 worker

---
 aiomisc_worker/worker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 107b28a..fd67e50 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -27,6 +27,17 @@ def run_task(func: Callable[..., Any], *args: Any, **kwargs: Any) -> Any:
         CANCELLABLE = False
 
 
+def send_exception(protocol: SocketIOProtocol, exc: BaseException) -> None:
+    try:
+        protocol.send((PacketTypes.EXCEPTION, exc))
+    except ConnectionError:
+        raise
+    except Exception as e:
+        # The exception can't be serialized, it's not a reason
+        # to lose the worker.
+        protocol.send((PacketTypes.EXCEPTION, e))
+
+
 def execute(protocol: SocketIOProtocol) -> None:
     pid = os.getpid()
     try:
@@ -61,9 +72,7 @@ def execute(protocol: SocketIOProtocol) -> None:
         raise
     except Exception as e:
         logging.exception("Exception when processing request")
-        protocol.send((
-            PacketTypes.EXCEPTION, e,
-        ))
+        send_exception(protocol, e)
 
 
 def on_cancel_signal(*_: Any) -> None:
-- 
2.43.0


From 98a850af1430f832c27c966b863efde0d58dca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 34/73] fix: unpicklable exception of the initializer hangs all
 the pool's callers

---
 aiomisc/worker_pool.py   | 7 ++++++-
 aiomisc_worker/worker.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 770f3a6..c5e6d59 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -181,7 +181,12 @@ class WorkerPool:
             return
 
         if packet_type == PacketTypes.BAD_INITIALIZER:
-            packet_type, exc = await proto.receive()
+            try:
+                packet_type, exc = await proto.receive()
+            except Exception as e:
+                # The exception can't be deserialized
+                packet_type, exc = PacketTypes.EXCEPTION, e
+
             if packet_type != PacketTypes.EXCEPTION:
                 await proto.send(PacketTypes.BAD_PACKET)
             else:
diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index fd67e50..e4caa5b 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -141,4 +141,4 @@ def bad_initializer(
             hmac.HMAC(cookie, worker_id, digestmod=hashlib.sha256).digest(),
             os.getpid(),
         ))
-        proto.send((PacketTypes.EXCEPTION, exc))
+        send_exception(proto, exc)
-- 
2.43.0


From 0570960f83ac392869aeda68756427fef7a28c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 35/73] fix: CAA records are considered equal and LOC ones are
 not comparable

---
 aiomisc/service/dns/records.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 616a50f..f7e9307 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -216,6 +216,9 @@ class SRV(dnslib.SRV, RD):
 
 
 class CAA(dnslib.CAA, RD):
+    # The base class compares ``data`` only, which is always None
+    attrs = ("flags", "tag", "value")
+
     @classmethod
     def create(
         cls, name: str, flags: int, tag: str, value: str,
@@ -318,6 +321,9 @@ class HTTPS(dnslib.HTTPS, RD):
 
 
 class LOC(dnslib.LOC, RD):
+    # The base class compares ``data`` which does not exist
+    attrs = ("lat", "lon", "alt", "siz", "hp", "vp")
+
     @classmethod
     def create(
         cls, name: str, latitude: float, longitude: float,
-- 
2.43.0


From 461a5e321988ac6e75b40441791b0effbb4691dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 36/73] fix: NAPTR and HTTPS DNS records are not able to be
 sent

---
 aiomisc/service/dns/records.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index f7e9307..f46a6c7 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -245,6 +245,23 @@ class NAPTR(dnslib.NAPTR, RD):
             ttl=ttl,
         )
 
+    def _encoded(self) -> dnslib.NAPTR:
+        # The base class is able to pack bytes only
+        flags, service, regexp = (
+            value.encode() if isinstance(value, str) else value
+            for value in (self.flags, self.service, self.regexp)
+        )
+        return dnslib.NAPTR(
+            self.order, self.preference, flags, service, regexp,
+            self.replacement,
+        )
+
+    def pack(self, buffer: Any) -> None:
+        self._encoded().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self._encoded())
+
 
 class DS(dnslib.DS, RD):
     @classmethod
@@ -319,6 +336,21 @@ class HTTPS(dnslib.HTTPS, RD):
             ttl=ttl,
         )
 
+    def _parsed(self) -> dnslib.HTTPS:
+        # The base class is able to pack parsed values only
+        if not isinstance(self.target, str):
+            return dnslib.HTTPS(self.priority, self.target, self.params)
+        target = f"{self.target.rstrip('.')}."
+        return dnslib.HTTPS.fromZone(
+            [str(self.priority), target, *self.params],
+        )
+
+    def pack(self, buffer: Any) -> None:
+        self._parsed().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self._parsed())
+
 
 class LOC(dnslib.LOC, RD):
     # The base class compares ``data`` which does not exist
-- 
2.43.0


From 9e378cad4794266cb257ee68ffe9222510723f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 37/73] fix: DNS query racing with the store replacement finds
 nothing

---
 aiomisc/service/dns/store.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..ebbe6fd 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -35,11 +35,12 @@ class DNSStore:
     def query(self, name: str, record_type: RecordType) -> Sequence[DNSRecord]:
         if not name.endswith("."):
             name += "."
-        zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
+        # The zones might be replaced by another thread at any moment
+        result = self.zones.find_prefix(self.get_reverse_tuple(name))
+        if not result:
             return ()
-        zone = self.zones.search(zone_tuple)
-        return zone.get_records(name, record_type) if zone is not None else ()
+        _, zone = result
+        return zone.get_records(name, record_type)
 
     def get_zone_for_name(self, name: str) -> Optional[Tuple[str, ...]]:
         labels = self.get_reverse_tuple(name)
-- 
2.43.0


From ae555cc4a6addef32145de533bb10b055c0f1cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 38/73] fix: stop of the TCP server hangs while clients are
 connected

The listening socket was closed after the handlers had been cancelled, so
handlers of the clients connected meanwhile were never stopped.
---
 aiomisc/service/base.py | 20 +++++++++++++++++++-
 aiomisc/service/tcp.py  |  3 +++
 aiomisc/service/tls.py  |  5 ++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..b5cb924 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -3,6 +3,7 @@ from abc import ABC, ABCMeta, abstractmethod
 from typing import (
     Any, Coroutine, Dict, Generator, Optional, Set, Tuple, TypeVar, Union,
 )
+from weakref import WeakSet
 
 from ..context import Context, get_context
 from ..utils import cancel_tasks
@@ -128,18 +129,35 @@ class SimpleServer(TaskStoreBase):
     def __init__(self, **kwargs: Any):
         self.server: Optional[asyncio.AbstractServer] = None
         self.tasks: Set[asyncio.Task] = set()
+        self._writers: WeakSet[asyncio.StreamWriter] = WeakSet()
+        self._stopping = False
         super().__init__(**kwargs)
 
+    def _accept_client(self, writer: asyncio.StreamWriter) -> bool:
+        """ Returns False when the client should not be handled """
+        if self._stopping:
+            writer.close()
+            return False
+        self._writers.add(writer)
+        return True
+
     @abstractmethod
     async def start(self) -> None:
         raise NotImplementedError
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
+        # Nobody stops handlers which are started after this
+        self._stopping = True
 
         if self.server:
             self.server.close()
 
+        await super().stop(exc)
+
+        # The server is not closed until its clients are connected
+        for writer in tuple(self._writers):
+            writer.close()
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 0fa62ec..541dd45 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -59,9 +59,12 @@ class TCPServer(SimpleServer):
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
     ) -> Any:
+        if not self._accept_client(writer):
+            return None
         return self.create_task(self.__client_handler(reader, writer))
 
     async def start(self) -> None:
+        self._stopping = False
         self.socket = self.make_socket()
         self.server = await asyncio.start_server(
             self.make_client_handler,
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index edb1241..38a2f3d 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -161,7 +161,9 @@ class TLSServer(SimpleServer):
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
-    ) -> asyncio.Task:
+    ) -> Any:
+        if not self._accept_client(writer):
+            return None
         return self.create_task(self.__client_handler(reader, writer))
 
     @abstractmethod
@@ -176,6 +178,7 @@ class TLSServer(SimpleServer):
             None, self.__ssl_options.create_context,
         )
 
+        self._stopping = False
         self.socket = self.make_socket()
 
         self.server = await asyncio.start_server(
-- 
2.43.0


From dcade77e0d9ff0ab5355811424450f93442ad2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 39/73] fix: UDP server starts new handlers while it is being
 stopped

---
 aiomisc/service/udp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..55691f4 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -25,6 +25,7 @@ class UDPServer(SimpleServer):
             self.task_factory = task_factory
             self.handler = awaitable(handle_datagram)
             self.transport: TransportType = None
+            self.closing = False
             self.loop: Optional[asyncio.AbstractEventLoop] = None
 
         def connection_made(self, transport: Any) -> None:
@@ -32,6 +33,8 @@ class UDPServer(SimpleServer):
             self.loop = asyncio.get_running_loop()
 
         def datagram_received(self, data: bytes, addr: tuple) -> None:
+            if self.closing:
+                return
             self.task_factory(self.handler(data, addr))
 
     def __init__(
@@ -60,7 +63,7 @@ class UDPServer(SimpleServer):
             self.make_socket = lambda: sock     # type: ignore
 
         self._transport: TransportType = None
-        self._protocol: Optional[asyncio.DatagramProtocol] = None
+        self._protocol: Optional[UDPServer.UDPSimpleProtocol] = None
         self.socket: Optional[socket.socket] = None
         super().__init__(**kwargs)
 
@@ -109,6 +112,11 @@ class UDPServer(SimpleServer):
         return None
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
+        if self._protocol:
+            # Nobody stops handlers which are started after this
+            self._protocol.closing = True
+
         await super().stop(exc)
+
         if self._transport:
             self._transport.close()
-- 
2.43.0


From e5e86e4e7fe6d194fa148c66285c85edc3b5db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 40/73] fix: stop of the TLS server waits for unfinished
 handshakes

---
 aiomisc/service/tls.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 38a2f3d..4de7375 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -190,8 +190,11 @@ class TLSServer(SimpleServer):
     async def stop(self, exc: Optional[Exception] = None) -> None:
         await super().stop(exc)
 
-        if self.server:
-            await self.server.wait_closed()
+        # The server's ``wait_closed`` waits for unfinished handshakes too
+        await asyncio.gather(
+            *[writer.wait_closed() for writer in self._writers],
+            return_exceptions=True,
+        )
 
     @property
     def __sockname(self) -> Optional[tuple]:
-- 
2.43.0


From c770abb5c5317021329e98244cafe4b110c0d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 41/73] fix: TLS server never asks for the required client
 certificate

With post_handshake_auth the certificate is not requested by the handshake
but by SSLSocket.verify_client_post_handshake() which nobody calls, so any
client was accepted.
---
 aiomisc/service/tls.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 4de7375..4de065f 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -90,8 +90,6 @@ class SSLOptions(SSLOptionsBase):
         if self.require_client_cert:
             log.debug("Set server-side cert verification")
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
-            # Post-handshake authentication is required
-            context.post_handshake_auth = True
         elif self.purpose is ssl.Purpose.SERVER_AUTH and self.verify:
             log.debug("Set client-side cert verification")
             context.check_hostname = True
-- 
2.43.0


From be65289ace08a32759eb116adbea4e889b06eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 42/73] fix: service stopped by stop_services() might continue
 its start

A service whose start is running in background, like a robust client which
is waiting for the next reconnect, has been coming back after the stop.
---
 aiomisc/entrypoint.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index fb91a8d..7b57891 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -6,8 +6,8 @@ import sys
 import threading
 from concurrent.futures import Executor
 from typing import (
-    Any, Callable, Coroutine, FrozenSet, Iterable, MutableSet, Optional, Set,
-    Tuple, TypeVar, Union,
+    Any, Callable, Coroutine, Dict, FrozenSet, Iterable, MutableSet, Optional,
+    Set, Tuple, TypeVar, Union,
 )
 from weakref import WeakSet
 
@@ -176,6 +176,7 @@ class Entrypoint:
         self._loop = loop
         self._loop_owner = False
         self._tasks: MutableSet[asyncio.Task] = WeakSet()
+        self._start_tasks: Dict[Service, asyncio.Task] = {}
         self._thread_pool: Optional[ExecutorType] = None
         self._closing: Optional[asyncio.Event] = None
         self._exit_task: Optional[asyncio.Task] = None
@@ -339,6 +340,7 @@ class Entrypoint:
         )
 
         self._services.add(svc)
+        self._start_tasks[svc] = start_task
 
         await asyncio.wait(
             (start_task, ev_task),
@@ -376,6 +378,10 @@ class Entrypoint:
         tasks = []
 
         try:
+            await cancel_tasks([
+                self._start_tasks.pop(s) for s in svc if s in self._start_tasks
+            ])
+
             for s in svc:
                 try:
                     log.debug("Stopping service %r", s)
-- 
2.43.0


From 4645ab9fd317977016c5682e1e3b5fbdac631a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 43/73] fix: exception handler of the loop fails for pending
 and cancelled futures

---
 aiomisc/log.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 20a6f31..64b4627 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -156,10 +156,10 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
         )
 
         if exception is None:
-            if future is not None:
-                exception = future.exception()
-            elif task is not None and task.done():
-                exception = task.exception()
+            source = task if future is None else future
+            if source is not None and source.done():
+                if not source.cancelled():
+                    exception = source.exception()
 
         extra = context
         if handle is not None:
-- 
2.43.0


From 25a8ba2573d356ba16e20c7d54a67ff85d7d60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 44/73] fix: log handlers do not get records logged during the
 shutdown

---
 aiomisc/entrypoint.py |  2 ++
 aiomisc/log.py        | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 7b57891..65333a2 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -271,6 +271,8 @@ class Entrypoint:
                 log_format=self.log_format,
                 date_format=self.log_date_format,
                 buffered=False,
+                handlers=self.log_handlers,
+                flush_interval=self.log_flush_interval,
             )
 
         loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
diff --git a/aiomisc/log.py b/aiomisc/log.py
index 64b4627..c592a50 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -207,12 +207,23 @@ def basic_config(
         unhandled_hook.add_handler(handler)
         forever_task.add_done_callback(lambda _: handler.close())
         log_handlers.append(handler)
-        handler.start()
+
+    replaced_handlers = [
+        handler for handler in logging.getLogger().handlers
+        if isinstance(handler, ThreadedHandler)
+    ]
 
     aiomisc_log.basic_config(
         level=level, log_format=log_format, handlers=log_handlers, **kwargs,
     )
 
+    # Records buffered by the replaced handlers must be handled before others
+    for replaced_handler in replaced_handlers:
+        replaced_handler.close()
+
+    for log_handler in log_handlers:
+        log_handler.start()
+
 
 __all__ = (
     "LogFormat",
-- 
2.43.0


From eb9360e6aa2e518f739f47089df6e9d311c4478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 45/73] fix: JSON formatter loses records without process
 information

---
 aiomisc_log/formatter/json.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index e37bd97..5f30b22 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -83,6 +83,10 @@ class JSONLogFormatter(logging.Formatter):
 
             v = record_dict.get(key)
 
+            if v is None and field_type is int:
+                # e.g. the process when logging.logProcesses is False
+                continue
+
             if not isinstance(v, field_type):
                 v = field_type(v)
 
-- 
2.43.0


From fe2f833b900f16ed2b7b79846f544d5662e90413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 46/73] fix: destructor of the not opened async file raises an
 exception

---
 aiomisc/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..1da5fc6 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -132,10 +132,10 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         )
 
     def __del__(self) -> None:
-        if not self.fp or self.fp.closed:
+        if self._fp is None or self._fp.closed:
             return
 
-        self.fp.close()
+        self._fp.close()
         del self._fp
 
     def __aiter__(self) -> "AsyncFileIO[AnyStr]":
-- 
2.43.0


From a8e1f53a19311a78380ad05189fe63c398fd732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 47/73] fix: async text file is closed when its buffer() is not
 used anymore

---
 aiomisc/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 1da5fc6..617d93b 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -69,6 +69,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     ) + EventLoopMixin.__slots__
 
     _fp: Optional[IO[AnyStr]]
+    _owner: Optional["AsyncFileIO"] = None
 
     @staticmethod
     def get_opener() -> Callable[..., IO[AnyStr]]:
@@ -132,6 +133,9 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         )
 
     def __del__(self) -> None:
+        if self._owner is not None:
+            return
+
         if self._fp is None or self._fp.closed:
             return
 
@@ -262,7 +266,10 @@ class AsyncTextIO(AsyncFileIO[str]):
         return self.fp.encoding
 
     def buffer(self) -> AsyncBinaryIO:
-        return AsyncBinaryIO.open_fp(self.fp.buffer)    # type: ignore
+        buffer = AsyncBinaryIO.open_fp(self.fp.buffer)    # type: ignore
+        # Otherwise the file will be closed when the result is not used anymore
+        buffer._owner = self
+        return buffer   # type: ignore
 
 
 # Aliases
-- 
2.43.0


From f5cd88adc3c40069aaef32434328aeb978f520cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 48/73] fix: assigned values of metrics are not reported by
 statistics

---
 aiomisc/counters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..50d03e7 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -107,6 +107,13 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
 
         self.__instances__.add(self)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        if name in self.__metrics__ and not isinstance(value, Metric):
+            # Replacing the metric makes it disappear from the statistics
+            self._counter[name] = value
+            return
+        super().__setattr__(name, value)
+
 
 @dataclass(frozen=True)
 class StatisticResult:
-- 
2.43.0


From 4abfbd817d37ad9684f31f137e554ef3ce5a7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 49/73] fix: collecting of statistics fails when instances are
 being created

---
 aiomisc/counters.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index 50d03e7..639637d 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -1,12 +1,15 @@
 from collections import Counter
 from dataclasses import dataclass
 from typing import (
-    Any, Dict, FrozenSet, Generator, Iterator, MutableMapping, MutableSet,
-    Optional, Set, Tuple, Type, Union,
+    Any, Dict, FrozenSet, Generator, Iterable, Iterator, MutableMapping,
+    MutableSet, Optional, Set, Tuple, Type, TypeVar, Union,
 )
 from weakref import WeakSet
 
 
+T = TypeVar("T")
+
+
 class Metric:
     __slots__ = ("name", "counter")
 
@@ -129,15 +132,25 @@ class StatisticResult:
         yield self.value
 
 
+def _snapshot(items: Iterable[T]) -> Tuple[T, ...]:
+    while True:
+        try:
+            return tuple(items)
+        except RuntimeError:
+            # Changed while iterating, because instances might be created
+            # in the other threads
+            continue
+
+
 # noinspection PyProtectedMember
 def get_statistics(
     *kind: Type[Statistic],
 ) -> Generator[Any, Tuple[Statistic, str, int], None]:
-    for klass in CLASS_STORE:
+    for klass in _snapshot(CLASS_STORE):
         if kind and not issubclass(klass, kind):
             continue
 
-        for instance in klass.__instances__:
+        for instance in _snapshot(klass.__instances__):
             for metric, value in instance._counter.items():
                 yield StatisticResult(
                     kind=klass,
-- 
2.43.0


From e1ed041565d12fdce80f41dd475c5cec38581a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 50/73] fix: metrics of the indirect base classes are lost by
 statistics

---
 aiomisc/counters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index 639637d..de67057 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -71,6 +71,9 @@ class MetaStatistic(type):
             if not issubclass(base_class, AbstractStatistic):
                 continue
 
+            # Metrics which are inherited by the base class
+            metrics.update(getattr(base_class, "__metrics__", ()))
+
             if not hasattr(base_class, "__annotations__"):
                 continue
 
-- 
2.43.0


From 77520f93aad0ed15793f25271b31dca1f60241fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 51/73] fix: statistics of the process pool fail for the
 cancelled calls

---
 aiomisc/process_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..c1d6164 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,6 +84,10 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
+        if future.cancelled():
+            # It has never been executed
+            return
+
         if future.exception():
             self._statistic.error += 1
         else:
-- 
2.43.0


From a37bbfd69d2c20d0ecd81bd3839db92caff050a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 52/73] fix: process services can not be started when logging
 is not configured

---
 aiomisc/service/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..23e302a 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -68,7 +68,7 @@ class ProcessService(Service):
             log_format = (
                 LogFormat.default()
                 if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
+                else LOG_FORMAT.get()
             )
 
             process = Process(
-- 
2.43.0


From 8234fac207d99287c1caab2c1d88870cb5dd3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 53/73] fix: respawned process of the service ignores the
 interrupt signal

---
 aiomisc/service/process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 23e302a..d6813e2 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -22,6 +22,8 @@ def _process_inner(
     stop_event: synchronize.Event,
     **kwargs: Any,
 ) -> None:
+    # The process forked by the running entrypoint inherits its signal handlers
+    signal.signal(signal.SIGINT, signal.default_int_handler)
     basic_config(level=log_level, log_format=log_format)
     start_event.set()
     try:
-- 
2.43.0


From 728068abb4e1d27b07526f72429cbecf9638e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 54/73] fix: process of the service is lost when its start is
 cancelled, start hangs when the process dies

---
 aiomisc/service/process.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index d6813e2..e11ed38 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -36,6 +36,7 @@ class ProcessService(Service):
     name: Optional[str] = None
     process: Process
     process_stop_timeout: int = 3
+    _process_start_poll: float = 1
 
     _process_start_event: synchronize.Event
     _process_stop_event: synchronize.Event
@@ -87,12 +88,15 @@ class ProcessService(Service):
             )
 
             process.start()
-
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
-            )
+            # Must be known before waiting because the start might be cancelled
             self.process = process
 
+        while process.is_alive():
+            if await self.loop.run_in_executor(
+                None, self._process_start_event.wait, self._process_start_poll,
+            ):
+                break
+
     def __repr__(self) -> str:
         pid: Optional[int] = None
         if hasattr(self, "process"):
-- 
2.43.0


From 6aa20cea8b744f38a9d056f5bdfa4271595d548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 55/73] fix: process of the service hanging at its exit keeps
 running after the stop

---
 aiomisc/service/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index e11ed38..87a516c 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -126,7 +126,7 @@ class ProcessService(Service):
                 None, process.join, self.process_stop_timeout,
             )
 
-        if not stop_result and process.is_alive():
+        if process.is_alive():
             process.kill()
             log.warning(
                 f"The process {process.pid} didn't stop for "
-- 
2.43.0


From f717dcd46a3f54affb0d03fbbe86061ea28d1852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 56/73] fix: process of the respawning service is lost when its
 start is cancelled

---
 aiomisc/service/process.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 87a516c..6a94f8a 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -50,9 +50,10 @@ class ProcessService(Service):
         pass
 
     def _is_alive(self) -> bool:
+        # The start might be cancelled before the process was started
+        if not hasattr(self, "process"):
+            return False
         with self._lock:
-            if not hasattr(self, "process"):
-                return False
             if not self.process.pid:
                 return False
             return self.process.is_alive()
@@ -161,7 +162,9 @@ class RespawningProcessService(ProcessService, ABC):
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> Any:
-        await self._supervisor.stop(return_exceptions=True)
+        # The start might be cancelled before the supervisor was started
+        if hasattr(self, "_supervisor"):
+            await self._supervisor.stop(return_exceptions=True)
         await super().stop(exception)
 
 
-- 
2.43.0


From f67515a4eb6837255501f0313a6917919d84b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 57/73] fix: signal call fails when receivers are connected
 meanwhile

---
 aiomisc/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/signal.py b/aiomisc/signal.py
index 24d3106..cf63848 100644
--- a/aiomisc/signal.py
+++ b/aiomisc/signal.py
@@ -36,7 +36,8 @@ class Signal:
         self._receivers.discard(receiver)  # type: ignore
 
     async def call(self, *args: Any, **kwargs: Any) -> None:
-        for receiver in self._receivers:
+        # Receivers might be (dis)connected while these ones are being called
+        for receiver in tuple(self._receivers):
             await receiver(*args, **kwargs)
 
     def copy(self) -> "Signal":
-- 
2.43.0


From 3d1740d1f5377bb0b0ddbd6dbf8e0f8c714602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 58/73] fix: uvicorn service is started before it serves, its
 stop might leave it listening, and it takes the signals over

---
 aiomisc/service/uvicorn.py | 48 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/uvicorn.py b/aiomisc/service/uvicorn.py
index 0b5ebc5..8e3e126 100644
--- a/aiomisc/service/uvicorn.py
+++ b/aiomisc/service/uvicorn.py
@@ -4,7 +4,10 @@ import logging
 import os
 import socket
 import ssl
-from typing import Any, Awaitable, Callable, List, Optional, Tuple, Type, Union
+from contextlib import contextmanager
+from typing import (
+    Any, Awaitable, Callable, Iterator, List, Optional, Tuple, Type, Union,
+)
 
 from asgiref.typing import ASGIApplication
 from uvicorn.config import (
@@ -21,6 +24,34 @@ log = logging.getLogger(__name__)
 UvicornApplication = Union[ASGIApplication, Callable]
 
 
+class UvicornServer(Server):
+    """ Server which life cycle is managed by the service """
+
+    def __init__(self, config: Config):
+        super().__init__(config)
+        self.startup_event = asyncio.Event()
+
+    async def startup(
+        self, sockets: Optional[List[socket.socket]] = None,
+    ) -> None:
+        try:
+            await super().startup(sockets=sockets)
+        finally:
+            self.startup_event.set()
+
+        if self.started and self.should_exit:
+            # Stopped while it was starting, nobody shuts it down otherwise
+            await self.shutdown(sockets=sockets)
+
+    def install_signal_handlers(self) -> None:
+        """ Signals are handled by the entrypoint """
+
+    @contextmanager
+    def capture_signals(self) -> Iterator[None]:
+        """ The same thing for the recent versions """
+        yield
+
+
 class UvicornService(Service, abc.ABC):
     __async_required__: Tuple[str, ...] = (
         "start",
@@ -115,11 +146,24 @@ class UvicornService(Service, abc.ABC):
         )
         if not self.sock:
             self.sock = config.bind_socket()
-        self.server = Server(config)
+        self.server = UvicornServer(config)
         self.serve_task = asyncio.create_task(
             self.server.serve(sockets=[self.sock]),
         )
 
+        # The server might fail before its startup
+        self.serve_task.add_done_callback(
+            lambda _: self.server.startup_event.set(),
+        )
+        await self.server.startup_event.wait()
+
+        if not self.server.started:
+            await self.serve_task
+            raise RuntimeError("Application startup failed")
+
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        # The start might be cancelled or failed
+        if not hasattr(self, "serve_task"):
+            return
         self.server.should_exit = True
         await self.serve_task
-- 
2.43.0


From c197cfc944da93b1892392085267f0a9e7cd0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 59/73] fix: stop of the aiohttp service fails when it was not
 started completely

---
 aiomisc/service/aiohttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/aiohttp.py b/aiomisc/service/aiohttp.py
index daf1266..ffda0ff 100644
--- a/aiomisc/service/aiohttp.py
+++ b/aiomisc/service/aiohttp.py
@@ -96,7 +96,8 @@ class AIOHTTPService(Service):
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
         try:
-            if self.site:
+            # The start might be cancelled or failed
+            if hasattr(self, "site"):
                 await self.site.stop()
         finally:
             if hasattr(self, "runner"):
-- 
2.43.0


From 9b644bae9b6de57fe408cdded0cc7517b040894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 60/73] fix: stop of a process service fails when its process
 has just exited

---
 aiomisc/service/process.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 6a94f8a..93ed339 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -117,7 +117,13 @@ class ProcessService(Service):
         if not process.pid:
             return
 
-        os.kill(process.pid, signal.SIGINT)
+        try:
+            os.kill(process.pid, signal.SIGINT)
+        except ProcessLookupError:
+            # The process has just finished and was reaped by the poll
+            # which might be still running in the thread pool
+            return
+
         stop_result: bool = await self.loop.run_in_executor(
             None, self._process_stop_event.wait, self.process_stop_timeout,
         )
-- 
2.43.0


From 1150e03b3f67b9a1ac9c4ec38f8780fec0fafc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 61/73] fix: stop of the Sentry service fails when records are
 logged from other threads meanwhile

---
 aiomisc/service/raven.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 0e59c0e..de03759 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -86,6 +86,7 @@ class AioHttpTransportBase(
             self._client_session = self._client_session_factory()
 
         self._closing = False
+        self._closed = False
 
     @property
     def keepalive(self) -> bool:
@@ -164,14 +165,27 @@ class AioHttpTransportBase(
             return
 
         self._loop.call_soon_threadsafe(
-            self._async_send, url, data, headers, success_cb, failure_cb,
+            self._send_soon, url, data, headers, success_cb, failure_cb,
         )
 
+    def _send_soon(
+        self, url: str, data: Any, headers: Mapping,
+        success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
+    ) -> None:
+        # The transport might be closed by the loop while another thread was
+        # scheduling this call
+        if self._closed:
+            failure_cb(RuntimeError(f"{self.__class__.__name__} is closed"))
+            return
+
+        self._async_send(url, data, headers, success_cb, failure_cb)
+
     async def _close_coro(
         self,
         *,
         timeout: Optional[TimeoutType] = None,
     ) -> None:
+        self._closed = True
         try:
             await asyncio.wait_for(
                 self._close(), timeout=timeout,
-- 
2.43.0


From 8c27218efc0fd86a6857fdb46377363dad856edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 62/73] fix: threaded iterable ends silently when the generator
 raises BaseException

---
 aiomisc/iterator_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 7df89f7..27d24e5 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -215,9 +215,10 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                     self._statistic.enqueued += 1
             except StopIteration:
                 return
-            except Exception as e:
+            except BaseException as e:
                 if self.closed:
                     return
+                # Otherwise the reader takes the rest of the items as missing
                 self.__channel.put((e, True))
             finally:
                 self._statistic.started -= 1
-- 
2.43.0


From 491491205e2e798959cbd4b9b8b791cadd711ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 63/73] fix: failed stop of a service leaves tasks and the
 event loop of the entrypoint

---
 aiomisc/entrypoint.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 65333a2..32c1791 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -275,9 +275,11 @@ class Entrypoint:
                 flush_interval=self.log_flush_interval,
             )
 
-        loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
-        if self._loop_owner and self._loop is not None:
-            loop.close()
+        try:
+            loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
+        finally:
+            if self._loop_owner and self._loop is not None:
+                loop.close()
 
     async def __aenter__(self) -> "Entrypoint":
         if self._loop is None:
@@ -424,14 +426,23 @@ class Entrypoint:
 
         self._closing.set()
 
-        await cancel_tasks(set(self._tasks))
-        await self.stop_services(*self._services, exc=exception)
+        error: Optional[Exception] = None
+
+        try:
+            await cancel_tasks(set(self._tasks))
+            await self.stop_services(*self._services, exc=exception)
+        except Exception as e:
+            # Failed stop of a service must not leave the rest running
+            error = e
 
         if self._loop_owner:
             await self._cancel_background_tasks()
 
         await self.loop.shutdown_asyncgens()
 
+        if error is not None:
+            raise error
+
     def _on_interrupt_callback(self, _: Any) -> None:
         loop = self.loop
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
-- 
2.43.0


From 0f85fcaf03ddbcc500e3f57a70d93ee64fdaa2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 64/73] fix: async with over a threaded iterable does not wait
 for the generator after break

---
 aiomisc/iterator_wrapper.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 27d24e5..968ae2c 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -273,9 +273,8 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         self, exc_type: Any, exc_val: Any,
         exc_tb: Any,
     ) -> None:
-        if self.closed:
-            return
-
+        # The iterator might be already closed, but the generator might be
+        # still running, e.g. after leaving the "async for" by break
         await self.close()
 
 
-- 
2.43.0


From f82fcb2a599c3dc497f42508ff563845d06be0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 65/73] fix: threaded_separate(False) creates detached threads

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 0e1093c..9f898d4 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -417,7 +417,7 @@ def threaded_separate(
     detach: bool = True,
 ) -> Callable[..., Awaitable[Any]]:
     if isinstance(func, bool):
-        return partial(threaded_separate, detach=detach)
+        return partial(threaded_separate, detach=func)
 
     if asyncio.iscoroutinefunction(func):
         raise TypeError("Can not wrap coroutine")
-- 
2.43.0


From c3c1ab8ed42c8672fa68cf3c706cb5f24b4f07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 66/73] fix: bind_socket leaks the socket when it can not be
 bound or configured

---
 aiomisc/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index b496c16..f09e118 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -100,15 +100,19 @@ def bind_socket(
 
     sock_set_nodelay(sock)
 
-    for level, option, value in options:
-        sock.setsockopt(level, option, value)
+    try:
+        for level, option, value in options:
+            sock.setsockopt(level, option, value)
 
-    if sock.family == unix_address_family:
-        proto_name = proto_name or "unix"
-        sock.bind(address)
-    else:
-        proto_name = proto_name or "tcp"
-        sock.bind((address, port))
+        if sock.family == unix_address_family:
+            proto_name = proto_name or "unix"
+            sock.bind(address)
+        else:
+            proto_name = proto_name or "tcp"
+            sock.bind((address, port))
+    except BaseException:
+        sock.close()
+        raise
 
     sock_addr = sock.getsockname()
     if not isinstance(sock_addr, str):
-- 
2.43.0


From f63d0f7e49aac7f856407e8a49eee9d126fbf4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 67/73] fix: creating of the event loop leaks an implicitly
 created one

---
 aiomisc/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index f09e118..e0ed763 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -141,15 +141,11 @@ def create_default_event_loop(
     :param debug: set ``loop.set_debug(True)`` if True
     """
 
-    current_loop_is_running = False
     try:
-        current_loop = asyncio.get_event_loop()
-        current_loop_is_running = current_loop.is_running()
-        del current_loop
+        asyncio.get_running_loop()
     except RuntimeError:
         pass
-
-    if current_loop_is_running:
+    else:
         raise RuntimeError(
             "Trying to create new event loop instance but another "
             "default loop in this thread is running right now.",
-- 
2.43.0


From 29bbafd90ee58a9d163abe2c74d661c5c2d4a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 68/73] fix: memory tracer service is not stopped before the
 tracemalloc

---
 aiomisc/service/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/service/tracer.py b/aiomisc/service/tracer.py
index 5260ebe..a0861df 100644
--- a/aiomisc/service/tracer.py
+++ b/aiomisc/service/tracer.py
@@ -98,4 +98,5 @@ class MemoryTracer(Service):
         return self.log_diff(differences)
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        await self._tracer.stop(return_exceptions=True)
         tracemalloc.stop()
-- 
2.43.0


From d1e91b955f213b28d64eb3880d1886df767dc572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 69/73] fix: asyncbackoff loses the last exception which is
 false in a boolean context

---
 aiomisc/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/backoff.py b/aiomisc/backoff.py
index 341aa7c..c17ff95 100644
--- a/aiomisc/backoff.py
+++ b/aiomisc/backoff.py
@@ -136,7 +136,7 @@ def asyncbackoff(
             try:
                 return await asyncio.wait_for(run(), timeout=deadline)
             except Exception:
-                if last_exc:
+                if last_exc is not None:
                     raise last_exc
                 raise
 
-- 
2.43.0


From 944a81a62235694ab73996fbaa971347386b9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 70/73] fix: call of the worker pool cancelled just when it is
 put to the queue is not cancelled

---
 aiomisc/worker_pool.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index c5e6d59..af2c651 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -331,19 +331,19 @@ class WorkerPool:
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        # This task will be cancelled when the pool is being closed
-        await self.__task(
-            self.tasks.put((
-                func, args, kwargs, result_future, process_future,
-            )),
-        )
-
         try:
+            # This task will be cancelled when the pool is being closed
+            await self.__task(
+                self.tasks.put((
+                    func, args, kwargs, result_future, process_future,
+                )),
+            )
             await process_future
             return await result_future
         except asyncio.CancelledError:
             result_future.cancel()
-            if process_future.done() and not self.__closing:
+            process_future.cancel()
+            if not process_future.cancelled() and not self.__closing:
                 self.__task(self.__interrupt_worker(result_future))
             raise
 
-- 
2.43.0


From 07b8371dc3791730fb3454a07090f9ef2e004918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 71/73] fix: calls of the closed event loop take the threads of
 the pool away

---
 aiomisc/thread_pool.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 9f898d4..7a5d9d8 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -110,7 +110,7 @@ class WorkItem(WorkItemBase):
 
         if self.loop.is_closed():
             log.warning("Event loop is closed. Ignoring %r", self.func)
-            raise asyncio.CancelledError
+            return
 
         result, exception = None, None
         delta = -time.monotonic()
@@ -130,19 +130,21 @@ class WorkItem(WorkItemBase):
         if no_return:
             return
 
-        if self.loop.is_closed():
+        try:
+            self.loop.call_soon_threadsafe(
+                _set_workitem_result,
+                self.future,
+                result,
+                exception,
+            )
+        except RuntimeError:
+            if not self.loop.is_closed():
+                raise
+
             log.warning(
                 "Event loop is closed. Forget execution result for %r",
                 self.func,
             )
-            raise asyncio.CancelledError
-
-        self.loop.call_soon_threadsafe(
-            _set_workitem_result,
-            self.future,
-            result,
-            exception,
-        )
 
 
 class TaskChannelCloseException(RuntimeError):
@@ -182,7 +184,7 @@ def thread_pool_thread_loop(
     try:
         while not pool_shutdown_event.is_set():
             tasks.get()()
-    except (TaskChannelCloseException, asyncio.CancelledError):
+    except TaskChannelCloseException:
         return None
     finally:
         stop_event.set()
-- 
2.43.0


From 8fde4ca5ea2fde089d849c71ca9b93a3dfe8184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 72/73] fix: callable without a name can not be run in a new
 thread

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 7a5d9d8..5fab612 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -405,7 +405,7 @@ def run_in_new_thread(
             future=future,
             statistic=statistic,
         ),
-        name=func.__name__,
+        name=getattr(func, "__name__", None),
         kwargs=dict(no_return=no_return),
         daemon=detach,
     )
-- 
2.43.0


From c489e971e69f3150b5461efc1e3d3cfb45bf52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:35 +0000
Subject: [PATCH 73/73] fix: traceback of an exception which is false is not
 logged

---
 aiomisc/log.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index c592a50..e4ce3a5 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -170,7 +170,12 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
             extra["sock"] = repr(sock)
 
         self._fill_transport_extra(transport, extra)
-        self.logger.exception(message, exc_info=exception, extra=extra)
+        # An exception might be false, but this is not the reason to lose it
+        exc_info = (
+            None if exception is None else
+            (type(exception), exception, exception.__traceback__)
+        )
+        self.logger.exception(message, exc_info=exc_info, extra=extra)
         if source_tb:
             self.logger.error("".join(traceback.format_list(source_tb)))
 
-- 
2.43.0

