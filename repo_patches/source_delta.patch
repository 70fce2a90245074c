From 93c2c17dd19c551e28607563564aa9597348c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 01/66] fix: IDAllocator honours top_limit when start_at is not
 zero

---
 satella/coding/concurrent/id_allocator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..b9f04d2 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -76,8 +76,8 @@ class IDAllocator(Monitor):
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        # internally the integers are kept relative to start_at, while top_limit is absolute
+        x = min(x, self.top_limit - self.start_at)
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From b18733a4be43249e05861dcc1f3e53cb08bebf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:15 +0000
Subject: [PATCH 02/66] fix: LockedDataset marks itself unlocked before
 releasing, lock arguments do not leak to other uses

---
 satella/coding/concurrent/locked_dataset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..734512b 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -41,7 +41,7 @@ class LockedDataset:
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
+            self.args = threading.local()   # arguments given by a call, for the next with of this thread
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,11 +81,13 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
+        _get_internal(self).args.value = blocking, timeout
         return self
 
     def __enter__(self):
-        args = _get_internal(self).args
+        local = _get_internal(self).args
+        args = getattr(local, 'value', ())
+        local.value = ()
 
         if not _get_internal(self).lock.acquire(*args):
             raise WouldWaitMore('Resource is still locked')
@@ -93,8 +95,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From 966481d1b7f4860093bd043d19f179b47ab500cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:32 +0000
Subject: [PATCH 03/66] fix: AtomicNumber waiters cannot miss a change, all
 in-place operations announce it, comparing two numbers cannot deadlock

---
 satella/coding/concurrent/atomic.py | 40 +++++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..327660d 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -225,13 +231,14 @@ class AtomicNumber(Monitor):
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
-        if isinstance(other, AtomicNumber):
-            with Monitor.acquire(other):
+        if isinstance(other, AtomicNumber) and other is not self:
+            # always lock in the same order, so that a == b and b == a cannot deadlock each other
+            first, second = sorted((self, other), key=id)
+            with Monitor.acquire(first), Monitor.acquire(second):
                 return self.value == other.value
-        else:
-            return self.value == other
+        with Monitor.acquire(self):
+            return self.value == (self.value if other is self else other)
 
     @Monitor.synchronized
     def __int__(self) -> int:
@@ -265,18 +272,17 @@ class AtomicNumber(Monitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
-        if timeout is None:
+        with measure(timeout=timeout) as measurement:
             while True:
-                if self == v:
-                    break
-                self.wait()
-        else:
-            with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
-
                 with Monitor.acquire(self):
-                    if self.value != v:
+                    if self.value == v:
+                        return
+                    if measurement.timeouted:
                         raise WouldWaitMore()
+                    # taken while still holding the monitor, so that no change
+                    # can be announced between this check and the wait
+                    self.condition.acquire()
+                try:
+                    self.wait(measurement.time_remaining, throw_exception=False)
+                finally:
+                    self.condition.release()
-- 
2.43.0


From 336b1c935d5ebbd7c42867717b31237db04c899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:02 +0000
Subject: [PATCH 04/66] fix: PeekableQueue never leaves a consumer asleep while
 there is an item for it

---
 satella/coding/concurrent/queue.py | 56 ++++++------------------------
 1 file changed, 11 insertions(+), 45 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..c6bcaf5 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -18,8 +18,10 @@ class PeekableQueue(tp.Generic[T]):
     def __init__(self):
         super().__init__()
         self.queue = collections.deque()
-        self.lock = threading.Lock()
-        self.inserted_condition = Condition()
+        # the condition shares the lock, so that no insertion can happen unnoticed
+        # between finding the queue empty and starting to wait
+        self.lock = threading.RLock()
+        self.inserted_condition = Condition(self.lock)
 
     def put(self, item: T) -> None:
         """
@@ -29,7 +31,7 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+        self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,53 +40,17 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
                 self.queue.append(item)
-        self.inserted_condition.notify(items_count)
-
-    def __get_timeout_none(self, item_getter):
-        while True:
-            self.lock.release()
-            self.inserted_condition.wait()
-            self.lock.acquire()
-            if len(self.queue):
-                try:
-                    return item_getter(self.queue)
-                finally:
-                    self.lock.release()
-
-    def __get_timeout(self, item_getter, timeout):
-        with measure(timeout=timeout) as measurement:
-            while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
-                if len(self.queue):
-                    try:
-                        return item_getter(self.queue)
-                    finally:
-                        self.lock.release()
-            else:
-                self.lock.release()
-                raise Empty('queue is empty')
+        self.inserted_condition.notify_all()
 
     @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
-        self.lock.acquire()
-        if len(self.queue):
-            # Fast path
-            try:
-                return item_getter(self.queue)
-            finally:
-                self.lock.release()
-        else:
-            if timeout is None:
-                return self.__get_timeout_none(item_getter)
-            else:
-                return self.__get_timeout(item_getter, timeout)
+        with measure(timeout=timeout) as measurement, self.lock:
+            while not self.queue:
+                # releases the lock while waiting, raises WouldWaitMore upon a timeout
+                self.inserted_condition.wait(timeout=measurement.time_remaining)
+            return item_getter(self.queue)
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
-- 
2.43.0


From 1e289e579acd3dd57814333dffa66fc47b90dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 05/66] fix: parallel_execute does not share its default
 arguments between calls

---
 satella/coding/concurrent/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..186c1fa 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -43,7 +43,7 @@ def run_as_future(fun):
 
 def parallel_execute(callable_: tp.Callable[[T], Future],
                      args: tp.Iterable[T],
-                     kwargs: tp.Iterable[dict] = infinite_iterator(return_factory=dict)):
+                     kwargs: tp.Optional[tp.Iterable[dict]] = None):
     """
     Execute a number of calls to callable in parallel.
 
@@ -54,9 +54,12 @@ def parallel_execute(callable_: tp.Callable[[T], Future],
 
     :param callable_: a callable that returns futures
     :param args: an iterable of arguments to provide to the callable
-    :param kwargs: an iterable of keyword arguments to provide to the callable
+    :param kwargs: an iterable of keyword arguments to provide to the callable. By default no
+        keyword arguments are given
     :return: an iterator yielding every value (or exception instance if thew) of the future
     """
+    if kwargs is None:
+        kwargs = infinite_iterator(return_factory=dict)
     futures = [callable_(*arg, **kwarg) for arg, kwarg in zip(args, kwargs)]
     for future in futures:
         try:
-- 
2.43.0


From 002ba85a82803f2993fff6bc4bdacf0be0c84dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 06/66] fix: sync_threadpool does not lose the wake-up of its
 workers, nor keeps them after a timeout

---
 satella/coding/concurrent/sync.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..55771b6 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
+import threading
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,24 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        all_arrived = threading.Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            all_arrived.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            # let the workers go, also if we gave up waiting
+            all_arrived.set()
         wait(futures)
-- 
2.43.0


From 1ef56dcf9bf4498a9096d37efa0ce5bcd970a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:56 +0000
Subject: [PATCH 07/66] fix: DeferredValue can be set only once also by
 concurrent setters

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From f99b283fa41aa894200c170a84a3e2f8fec56467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 08/66] fix: SingleStartThread starts once also when started
 concurrently, and start() returns the thread each time

---
 satella/coding/concurrent/thread.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..09de8c3 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -151,6 +151,7 @@ class SingleStartThread(threading.Thread):
 
     def __init__(self, *args, **kwargs):
         self.__started = False
+        self.__start_lock = threading.Lock()
         super().__init__(*args, **kwargs)
 
     def start(self) -> 'SingleStartThread':
@@ -159,10 +160,10 @@ class SingleStartThread(threading.Thread):
 
         :return: self
         """
-        if self.__started:
-            return
-        self.__started = True
-        super().start()
+        with self.__start_lock:
+            if not self.__started:
+                super().start()
+                self.__started = True
         return self
 
 
-- 
2.43.0


From db0dbf1a3f9b90cadd0334513170c32c4f70530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 09/66] fix: BogusTerminableThread can be joined without a
 timeout

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 09de8c3..c819246 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -221,7 +221,8 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
+            while (timeout is None or time.monotonic() - started_elapsing < timeout) \
+                    and not self.terminated:
                 time.sleep(1)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
-- 
2.43.0


From 06b470735306b86fd8c39bac294d065f4bc43e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:32 +0000
Subject: [PATCH 10/66] fix: time-based heaps accept several items with one
 timestamp even if the items are not comparable

---
 satella/coding/structures/heaps/time.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..5144c23 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -7,6 +7,17 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable
 
 
+class _Entry(tuple):
+    """A (timestamp, item) pair ordered by timestamp alone, as items need not be comparable"""
+    __slots__ = ()
+
+    def __lt__(self, other):
+        return self[0] < other[0]
+
+    def __gt__(self, other):
+        return self[0] > other[0]
+
+
 class TimeBasedHeap(Heap):
     """
     A heap of items sorted by timestamps.
@@ -95,7 +106,7 @@ class TimeBasedHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_Entry((timestamp, item)))
 
     def peek_closest(self) -> tp.Tuple[Number, T]:
         """
@@ -242,7 +253,7 @@ class TimeBasedSetHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push((timestamp, item))
+        self.push(_Entry((timestamp, item)))
 
     def pop_less_than(self, less: tp.Optional[Number] = None) -> tp.Iterator[tp.Tuple[Number, T]]:
         """
-- 
2.43.0


From 517ec0d48f80fe1afe96a5cd0a86d5b43e8569d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:58 +0000
Subject: [PATCH 11/66] fix: singletons are constructed once and handed out
 fully constructed also to concurrent callers, and not kept if the constructor
 fails

---
 satella/coding/structures/singleton.py | 54 ++++++++++++++++----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..fd5dc66 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -1,3 +1,4 @@
+import threading
 import typing as tp
 import weakref
 
@@ -17,17 +18,23 @@ def Singleton(cls):
     """
 
     cls.__new_old__ = cls.__new__
+    lock = threading.RLock()
 
     @wraps(cls.__new__)
     def singleton_new(cls, *args, **kw):
-        it = cls.__dict__.get('__it__')
-        if it is not None:
+        with lock:
+            it = cls.__dict__.get('__it__')
+            if it is not None:
+                return it
+
+            cls.__it__ = it = cls.__new_old__(cls)
+            try:
+                it.__init_old__(*args, **kw)
+            except BaseException:
+                del cls.__it__
+                raise
             return it
 
-        cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
-        return it
-
     cls.__new__ = singleton_new
     cls.__init_old__ = cls.__init__
     cls.__init__ = wraps(cls.__init__)(
@@ -68,23 +75,30 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
     def inner(cls):
 
         cls.__new_old__ = cls.__new__
+        lock = threading.RLock()
 
         @wraps(cls.__new__)
         def singleton_new(cls, *args, **kw):
-            it = cls.__dict__.get('__it__')
-            if it is None:
-                if weak_refs:
-                    it = cls.__it__ = weakref.WeakValueDictionary()
-                else:
-                    it = cls.__it__ = {}
-
-            key = args[:num_args]
-            if key in it:
-                return it[key]
-
-            inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
-            return inst
+            with lock:
+                it = cls.__dict__.get('__it__')
+                if it is None:
+                    if weak_refs:
+                        it = cls.__it__ = weakref.WeakValueDictionary()
+                    else:
+                        it = cls.__it__ = {}
+
+                key = args[:num_args]
+                inst = it.get(key)
+                if inst is not None:
+                    return inst
+
+                inst = it[key] = cls.__new_old__(cls)
+                try:
+                    inst.__init_old__(*args, **kw)
+                except BaseException:
+                    del it[key]
+                    raise
+                return inst
 
         cls.__new__ = singleton_new
         cls.__init_old__ = cls.__init__
-- 
2.43.0


From fd8d7ea5c0eb9b5b996b592745e767a4aa23137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:43 +0000
Subject: [PATCH 12/66] fix: Future shows one outcome to all threads while
 pre-done callbacks run, on_success ignores cancellation, exception() needs no
 timeout

---
 satella/coding/concurrent/futures/futures.py | 78 ++++++++++----------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..05bb473 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut.cancelled() or fut._exception is not None:
                 return
             return fun(fut._result)
 
@@ -120,57 +120,61 @@ class Future(PythonFuture, tp.Generic[T]):
                 LOGGER.exception('exception calling callback for %r', self)
 
     def result(self, timeout=None) -> T:
-        if self._state == PRE_FINISHED:
-            return self.__get_result()
-        else:
-            return super().result(timeout)
+        with self._condition:
+            # only the thread calling the pre-done callbacks can observe this state
+            if self._state == PRE_FINISHED:
+                return self.__get_result()
+        return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
-        if self._state == PRE_FINISHED:
-            return self._exception
-        else:
-            return super().exception(timeout)
+    def exception(self, timeout: tp.Optional[float] = None) -> tp.Optional[BaseException]:
+        with self._condition:
+            if self._state == PRE_FINISHED:
+                return self._exception
+        return super().exception(timeout)
 
     def set_result(self, result: T) -> None:
         """Sets the return value of work associated with the future.
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
-            self._result = result
-        else:
-            with self._condition:
-                if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
-                    raise InvalidStateError('{}: {!r}'.format(self._state, self))
+        with self._condition:
+            if self._state == PRE_FINISHED:
                 self._result = result
-                self._state = PRE_FINISHED
-                self._invoke_pre_callbacks()
-                self._state = FINISHED
-                for waiter in self._waiters:
-                    waiter.add_result(self)
-                self._condition.notify_all()
-            self._invoke_callbacks()
+                self._exception = None
+                return
+            if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
+                raise InvalidStateError('{}: {!r}'.format(self._state, self))
+            self._result = result
+            self._finish()
+        self._invoke_callbacks()
+
+    def _finish(self) -> None:
+        """Call the pre-done callbacks and let the waiters know. Call with the condition held"""
+        self._state = PRE_FINISHED
+        self._invoke_pre_callbacks()
+        self._state = FINISHED
+        for waiter in self._waiters:
+            if self._exception is not None:
+                waiter.add_exception(self)
+            else:
+                waiter.add_result(self)
+        self._condition.notify_all()
 
     def set_exception(self, exception):
         """Sets the result of the future as being the given exception.
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
-            self._exception = exception
-            self._result = None
-        else:
-            with self._condition:
-                if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
-                    raise InvalidStateError('{}: {!r}'.format(self._state, self))
+        with self._condition:
+            if self._state == PRE_FINISHED:
                 self._exception = exception
-                self._state = PRE_FINISHED
-                self._invoke_pre_callbacks()
-                self._state = FINISHED
-                for waiter in self._waiters:
-                    waiter.add_exception(self)
-                self._condition.notify_all()
-            self._invoke_callbacks()
+                self._result = None
+                return
+            if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
+                raise InvalidStateError('{}: {!r}'.format(self._state, self))
+            self._exception = exception
+            self._finish()
+        self._invoke_callbacks()
 
 
 class WrappingFuture(Future):
-- 
2.43.0


From c9b0d23b335a5dd4f12783bdbaf8ceadea4138d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:43 +0000
Subject: [PATCH 13/66] fix: WrappingFuture cannot lose the outcome of its
 source, and learns of its cancellation

---
 satella/coding/concurrent/futures/futures.py | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 05bb473..9160d12 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -2,7 +2,7 @@ import concurrent.futures._base
 import logging
 import typing as tp
 from concurrent.futures import Future as PythonFuture
-from concurrent.futures._base import CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED
+from concurrent.futures._base import CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED, PENDING, RUNNING
 
 from satella.coding.typing import T
 
@@ -190,14 +190,15 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
+        if self._old_state != PENDING:
             return self._old_state
-        else:
-            return self.source_future._state
+        if self.source_future._state == PENDING:
+            return PENDING
+        # even if the source future is done already, we're not until we got its outcome
+        return RUNNING
 
     @_state.setter
     def _state(self, v: str):
@@ -207,13 +208,19 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._state = CANCELLED_AND_NOTIFIED
+                for waiter in self._waiters:
+                    waiter.add_cancelled(self)
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
         return self.source_future.cancel()
 
 
-- 
2.43.0


From 52bd9489dfefe364f2291fbc4227589eeb3ad3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:43 +0000
Subject: [PATCH 14/66] fix: FutureCollection cancels and starts all of its
 members

---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 8ff12a5df3ca4a3d4c9d34597cd28b1277107dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:43 +0000
Subject: [PATCH 15/66] fix: run_as_future and call_in_separate_thread resolve
 the future also when the function raises SystemExit

---
 satella/coding/concurrent/functions.py | 2 +-
 satella/coding/concurrent/thread.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index 186c1fa..d2db48f 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index c819246..b25f00a 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From 4a9e286f38cc1186cc6761eb2b05f03a43c1519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 16/66] fix: CPManager never exceeds its maximum number of
 connections, serves waiters, does not deadlock in invalidate() nor leak
 connections released after close()

---
 satella/coding/resources/cp_manager.py | 65 ++++++++++++++------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..9fa6f70 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -2,12 +2,12 @@ import abc
 import logging
 import queue
 import sys
+import threading
 import typing as tp
 import warnings
 
 from ..concurrent import Monitor
 from ..misc import Closeable
-from ..recast_exceptions import silence_excs
 from ..typing import T
 
 logger = logging.getLogger(__name__)
@@ -49,10 +49,13 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         self.max_cycle_no = max_cycle_no
         self.id_to_times = {}  # type: tp.Dict[int, int]
         self.terminating = False
+        self.released = threading.Condition(self._monitor_lock)
 
     def close(self) -> None:
         if super().close():
-            self.terminating = True
+            with Monitor.acquire(self):
+                self.terminating = True
+                self.released.notify_all()
             self.invalidate()
 
     @Monitor.synchronized
@@ -60,10 +63,14 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         """
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
-        while self.connections.qsize() > 0:
-            conn = self.connections.get()
-            self.teardown_connection(conn)
+        while True:
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:
+                return
             del self.id_to_times[id(conn)]
+            self.released.notify()
+            self.teardown_connection(conn)
 
     def acquire_connection(self) -> T:
         """
@@ -72,20 +79,18 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         :return: a new connection:
         :raises RuntimeError: CPManager is terminating!
         """
-        if self.terminating:
-            raise RuntimeError('CPManager is terminating')
-        try:
-            conn = self.connections.get(False)
-        except queue.Empty:
+        with Monitor.acquire(self):
             while True:
-                with silence_excs(queue.Empty), Monitor.acquire(self):
-                    if self.connections.qsize() >= self.max_number:
-                        conn = self.connections.get(False, 5)
-                        break
-                    else:
+                if self.terminating:
+                    raise RuntimeError('CPManager is terminating')
+                try:
+                    conn = self.connections.get(False)
+                    break
+                except queue.Empty:
+                    if len(self.id_to_times) < self.max_number:
                         conn = self.create_connection()
                         break
-        with Monitor.acquire(self):
+                self.released.wait(5)
             obj_id = id(conn)
             self.id_to_times[obj_id] = self.id_to_times.get(obj_id, 0) + 1
             return conn
@@ -96,21 +101,23 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
 
         :param connection: connection to release
         """
-        obj_id = id(connection)
-        if self.id_to_times[obj_id] >= self.max_cycle_no:
-            self._kill_connection(connection)
-        else:
-            try:
-                self.connections.put(connection, False)
-            except queue.Full:
-                self._kill_connection(connection)
-
-    def _kill_connection(self, connection):
-        obj_id = id(connection)
         with Monitor.acquire(self):
-            del self.id_to_times[obj_id]
+            if not self.terminating and self.id_to_times[id(connection)] < self.max_cycle_no:
+                try:
+                    self.connections.put(connection, False)
+                    self.released.notify()
+                    return
+                except queue.Full:
+                    pass
+        self._kill_connection(connection)
 
-        self.teardown_connection(connection)
+    def _kill_connection(self, connection):
+        try:
+            self.teardown_connection(connection)
+        finally:
+            with Monitor.acquire(self):
+                del self.id_to_times[id(connection)]
+                self.released.notify()
 
     @Monitor.synchronized
     def fail_connection(self, connection: T) -> None:
-- 
2.43.0


From 92cacff131f76cb28184db6fd9b4bec275aee493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 17/66] fix: CallableGroup keeps its callables and their order
 if one of them raises, adds others, or it is called concurrently;
 has_cancelled_callbacks is not inverted

---
 satella/coding/concurrent/callablegroup.py | 28 +++++++++-------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..c2a612a 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,9 +1,7 @@
 import collections
-import copy
 import time
 import typing as tp
 
-from satella.coding.deleters import DictDeleter
 from satella.coding.typing import T, NoArgCallable
 
 
@@ -112,19 +110,16 @@ class CallableGroup(tp.Generic[T]):
         :class:`~satella.coding.concurrent.CancellableCallback` instances and whether any
         of them was cancelled
         """
-        for clb in self.callables:
-             if clb:
-                return True
-        return False
+        return any(isinstance(clb, CancellableCallback) and clb.cancelled
+                   for clb in list(self.callables))
 
     def remove_cancelled(self) -> None:
         """
         Remove it's entries that are CancelledCallbacks and that were cancelled
         """
-        with DictDeleter(self.callables) as dd:
-            for callable_ in dd:
-                if isinstance(callable_, CancellableCallback) and not callable_:
-                    dd.delete()
+        for callable_ in list(self.callables):
+            if isinstance(callable_, CancellableCallback) and not callable_:
+                self.callables.pop(callable_, None)
 
     def add(self, callable_: tp.Union[CancellableCallback, NoArgCallable[T]],
             one_shot: bool = False) -> CancellableCallback:
@@ -168,12 +163,14 @@ class CallableGroup(tp.Generic[T]):
         if self.has_cancelled_callbacks:
             self.remove_cancelled()
 
-        callables = copy.copy(self.callables)
-        self.callables.clear()
-
         results = []
 
-        for call, one_shot in callables.items():
+        for call in list(self.callables):
+            one_shot = self.callables.get(call)
+            if one_shot is None or not call:
+                continue        # unregistered or cancelled in the meantime
+            if one_shot and self.callables.pop(call, None) is None:
+                continue        # someone else is just calling it
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
@@ -184,9 +181,6 @@ class CallableGroup(tp.Generic[T]):
             if self.gather:
                 results.append(q)
 
-            if not one_shot:
-                self.add(call, one_shot)
-
         if self.gather:
             return results
 
-- 
2.43.0


From d2a40df614cbce27c76bc7e1d7a1ec80c5fbb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 18/66] fix: CallNoOftenThan makes the first call regardless of
 the clock, returns the result, and limits concurrent callers

---
 satella/coding/concurrent/callablegroup.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index c2a612a..76995bf 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,4 +1,5 @@
 import collections
+import threading
 import time
 import typing as tp
 
@@ -196,14 +197,20 @@ class CallNoOftenThan:
     :param interval: interval in seconds
     :param callable_: callable to call
     """
-    __slots__ = ('interval', 'callable', 'last_called')
+    __slots__ = ('interval', 'callable', 'last_called', 'lock')
 
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = None  # type: tp.Optional[float]
+        self.lock = threading.Lock()
 
     def __call__(self, *args, **kwargs):
-        if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
-            self.last_called = time.monotonic()
+        with self.lock:
+            now = time.monotonic()
+            if self.last_called is not None and now - self.last_called < self.interval:
+                return
+            self.last_called = now
+        result = self.callable(*args, **kwargs)
+        self.last_called = time.monotonic()
+        return result
-- 
2.43.0


From 27147cf1e38367bdc9051fdfdb9c1be93d91915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:06 +0000
Subject: [PATCH 19/66] fix: CallableGroup can be added to while it is being
 called

---
 satella/coding/concurrent/callablegroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 76995bf..c39769c 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,4 +1,3 @@
-import collections
 import threading
 import time
 import typing as tp
@@ -100,7 +99,7 @@ class CallableGroup(tp.Generic[T]):
 
     def __init__(self, gather: bool = True, swallow_exceptions: bool = False):
 
-        self.callables = collections.OrderedDict()  # type: tp.Dict[tp.Callable, tuple[bool, int]]
+        self.callables = {}  # type: tp.Dict[tp.Callable, tuple[bool, int]]
         self.gather = gather  # type: bool
         self.swallow_exceptions = swallow_exceptions  # type: bool
 
-- 
2.43.0


From ece9be49df26b0a0e5cc12a9a0300ca64555905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:37 +0000
Subject: [PATCH 20/66] fix: SetHeap holds each element once however it got
 there, and forgets an element popped by value

---
 satella/coding/structures/heaps/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..6ee4ed2 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,8 +153,13 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
-        self.set = set(self.data)
+        self.set = set(from_list) if from_list is not None else set()
+        super().__init__(from_list=self.set)
+
+    def pop_item(self, item: T) -> T:
+        item = super().pop_item(item)
+        self.set.remove(item)
+        return item
 
     def push(self, item: T):
         if item not in self.set:
@@ -173,3 +178,6 @@ class SetHeap(Heap):
                    map_fun: tp.Optional[tp.Callable[[T], tp.Any]] = None):
         super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
         self.set = set(self.data)
+        if len(self.set) != len(self.data):     # mapping made some of them equal
+            self.data = list(self.set)
+            heapq.heapify(self.data)
-- 
2.43.0


From 3676d4701a8904ab6e9cd7e16ed207f8525d9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:43 +0000
Subject: [PATCH 21/66] fix: time-based heaps keep their index in step (remove,
 filter_map, push_many), can be copied, and find an item's timestamp

---
 satella/coding/structures/heaps/time.py | 45 ++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 5144c23..5c947f7 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -57,6 +58,22 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        other = self.__class__(self.default_clock_source)
+        other.push_many(self.data)
+        return other
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        other = self.__class__(self.default_clock_source)
+        other.push_many((ts, copy.deepcopy(item, memo)) for ts, item in self.data)
+        return other
+
+    def push(self, item: tp.Tuple[Number, T], *args) -> None:
+        super().push(_Entry((item, *args) if args else item))
+
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        super().push_many(_Entry(item) for item in items)
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -75,7 +92,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
@@ -106,7 +123,7 @@ class TimeBasedHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push(_Entry((timestamp, item)))
+        self.push((timestamp, item))
 
     def peek_closest(self) -> tp.Tuple[Number, T]:
         """
@@ -197,6 +214,26 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        other = self.__class__(self.default_clock_source)
+        other.push_many(self.data)
+        return other
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        other = self.__class__(self.default_clock_source)
+        other.push_many((ts, copy.deepcopy(item, memo)) for ts, item in self.data)
+        return other
+
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
+    def filter_map(self, filter_fun=None, map_fun=None):
+        items = [item for item in self.data if filter_fun is None or filter_fun(item)]
+        self.data = []
+        self.item_to_timestamp = {}
+        self.push_many(map(map_fun, items) if map_fun else items)
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
@@ -232,7 +269,7 @@ class TimeBasedSetHeap(Heap):
         if item[1] in self.item_to_timestamp:
             self.pop_item(item[1])
 
-        super().push(item)
+        super().push(_Entry(item))
         self.item_to_timestamp[item[1]] = item[0]
 
     def pop(self) -> tp.Tuple[Number, T]:
@@ -253,7 +290,7 @@ class TimeBasedSetHeap(Heap):
             timestamp, item = timestamp_or_value, value
 
         assert timestamp is not None
-        self.push(_Entry((timestamp, item)))
+        self.push((timestamp, item))
 
     def pop_less_than(self, less: tp.Optional[Number] = None) -> tp.Iterator[tp.Tuple[Number, T]]:
         """
-- 
2.43.0


From 4e43b1e848dac67d1c2ecb411a25a648f44b47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 22/66] fix: SortedList can be built from items with equal keys
 that are not comparable; appending to a full SliceableDeque drops from the
 other end

---
 satella/coding/structures/sorted_list.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..29d7ecf 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda pair: pair[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
@@ -105,6 +105,12 @@ class SliceableDeque(collections.abc.MutableSequence, tp.Generic[T]):
     def insert(self, i: int, item: T):
         self.deque.insert(i, item)
 
+    def append(self, item: T):
+        self.deque.append(item)
+
+    def extend(self, items: tp.Iterable[T]):
+        self.deque.extend(items)
+
     def __init__(self, *args, **kwargs):
         self.deque = collections.deque(*args, **kwargs)
 
-- 
2.43.0


From be8b6b50796278820962cdda8a1f41c6a48e31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 23/66] fix: Ranking forgets the position of a removed element

---
 satella/coding/structures/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/ranking.py b/satella/coding/structures/ranking.py
index b4761e4..f63c816 100644
--- a/satella/coding/structures/ranking.py
+++ b/satella/coding/structures/ranking.py
@@ -52,6 +52,7 @@ class Ranking(tp.Generic[T]):
         Remove a single element from the ranking and _recalculate it
         """
         index = self.ranking.index(item)
+        del self.element_to_position[id(self.ranking[index])]
         self.ranking.remove(item)
         for position, item in enumerate(self.ranking[index:], start=index):
             self.element_to_position[id(item)] = position
-- 
2.43.0


From 661e192cc970de9bb916dceea85ea45d71a71725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 24/66] fix: Timer's dispatcher takes due timers off its heap
 while holding the lock

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..ab21756 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -83,7 +83,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From 4b7b0dce69916d9bd0c2b62d13cb9ed4d8cdb41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:51 +0000
Subject: [PATCH 25/66] fix: CacheDict honours time_getter, feeding or
 invalidating a key ends its cached miss, misses are known for their own
 interval, readers tolerate concurrent changes; LRUCacheDict evicts nothing to
 store a key it has

---
 .../structures/dictionaries/cache_dict.py     | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..fa36ae8 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,8 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
@@ -110,7 +111,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
@@ -200,24 +201,29 @@ class CacheDict(tp.Mapping[K, V]):
         >>> except KeyError:
         >>>   pass
         """
+        if key in self.cache_missed:
+            self.cache_missed.discard(key)
+            self.timestamp_data.pop(key, None)
         del self[key]
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
-        if key in self.cache_missed:
-            if now - timestamp > self.cache_failures_interval:
-                return self.get_value_block(key)
+        if now - timestamp > self.cache_failures_interval:
+            return self.get_value_block(key)
+        else:
+            if self.default_value_factory:
+                return self.default_value_factory()
             else:
-                if self.default_value_factory:
-                    return self.default_value_factory()
-                else:
-                    raise KeyError('Cached a miss')
+                raise KeyError('Cached a miss')
 
     def __getitem__(self, key: K) -> V:
         if key not in self.data and key not in self.cache_missed:
             return self.get_value_block(key)
 
-        timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        try:
+            timestamp = self.timestamp_data[key]
+        except KeyError:    # another thread is just storing or removing it
+            return self.get_value_block(key)
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
@@ -225,13 +231,15 @@ class CacheDict(tp.Mapping[K, V]):
             return self._on_cache_hit(key, timestamp, now)
 
     def _on_cache_hit(self, key: K, timestamp: float, now: float) -> V:
+        try:
+            value = self.data[key]
+        except KeyError:    # another thread has just removed it
+            return self.get_value_block(key)
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
         elif now - timestamp > self.stale_interval:
             self.schedule_a_fetch(key)
-            return self.data[key]
-        else:
-            return self.data[key]
+        return value
 
     def __delitem__(self, key: K) -> None:
         del self.data[key]
@@ -315,6 +323,7 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Store a value with current timestamp
         """
-        self.make_room()
+        if key not in self.data:
+            self.make_room()
         self.lru.mark_as_used(key)
         super().__setitem__(key, value)
-- 
2.43.0


From f1de01c1baf5ac402efd7ece7f5247d264c4e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:09 +0000
Subject: [PATCH 26/66] fix: an entry fed to a LRUCacheDict is its most
 recently used one

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index fa36ae8..6318013 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -317,7 +317,7 @@ class LRUCacheDict(CacheDict[K, V]):
         if key not in self.data:
             self.make_room()
         super().feed(key, value, timestamp)
-        self.lru.add(key)
+        self.lru.mark_as_used(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From 50f1662454e408520ba399f2379437d74a2feba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:04 +0000
Subject: [PATCH 27/66] fix: expiring and self-cleaning dictionaries can be
 used while holding their monitor as documented, stay consistent when an
 expired entry is read, raise KeyError upon deleting an absent key, and are
 iterable

---
 .../structures/dictionaries/expiring.py       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..e525ca3 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -4,7 +4,7 @@ import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
@@ -58,7 +58,7 @@ class ExpiringEntryDictThread(threading.Thread, Monitor):
         self.start()
 
 
-class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A defaultdict with the property that if it detects that a value is equal to it's default value,
     it will automatically remove it from the dict.
@@ -99,7 +99,11 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
+
+    @Monitor.synchronized
+    def __contains__(self, item) -> bool:
+        return item in self.data and self.data[item] != self.default_value
 
     def __delitem__(self, key: K) -> None:
         if key in self.data:
@@ -136,7 +140,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
@@ -176,6 +180,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         for key, value in dct.items():
             self[key] = value
 
+    @Monitor.synchronized
     def __contains__(self, item) -> bool:
         try:
             ts = self.key_to_expiration_time.item_to_timestamp[item]
@@ -183,7 +188,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
             return False
 
         if ts < self.time_getter():
-            del self[item]
+            self._remove(item)
             return False
 
         return True
@@ -208,19 +213,25 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     @Monitor.synchronized
     def __setitem__(self, key: K, value: V) -> None:
-        self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
+        self.key_to_expiration_time.push((self.time_getter() + self.expiration_timeout, key))
         self.data[key] = value
 
+    @Monitor.synchronized
     @rethrow_as(ValueError, KeyError)
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            self._remove(item)
             raise KeyError('Entry expired')
 
         return self.data[item]
 
     @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
+        if key not in self:
+            raise KeyError(key)
+        self._remove(key)
+
+    def _remove(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
         del self.data[key]
-- 
2.43.0


From df5f95c4b7d4c697cfea44fb1331114c31f10376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:53 +0000
Subject: [PATCH 28/66] fix: ExclusiveWritebackCache sends operations on a key
 to the storage in order, never caches what was read before a change, reads a
 key being deleted as missing, and sync() honours its timeout

---
 .../dictionaries/writeback_cache.py           | 102 +++++++++++++-----
 1 file changed, 74 insertions(+), 28 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..10bde20 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -1,11 +1,17 @@
+import collections
+import logging
 import time
 import typing as tp
 from concurrent.futures import Executor, ThreadPoolExecutor, ProcessPoolExecutor
 
 from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
-from satella.coding.recast_exceptions import silence_excs
+from satella.coding.recast_exceptions import log_exceptions
 from satella.coding.typing import V, K
+from satella.exceptions import WouldWaitMore
+from satella.time.measure import measure
+
+logger = logging.getLogger(__name__)
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -27,7 +33,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     """
     __slots__ = ('executor', 'read_method', 'write_method', 'delete_method',
                  'no_concurrent_executors', 'in_cache', 'cache_lock',
-                 'cache', 'operations', 'store_key_errors')
+                 'cache', 'operations', 'store_key_errors', 'pending', 'modifications')
 
     def __init__(self, write_method: tp.Callable[[K, V], None],
                  read_method: tp.Callable[[K], V],
@@ -49,6 +55,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.cache_lock = Monitor()
         self.cache = {}
         self.operations = 0
+        self.pending = {}  # type: tp.Dict[K, collections.deque]
+        self.modifications = 0
 
     def get_queue_length(self) -> int:
         """
@@ -69,13 +77,40 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
-        while self.get_queue_length() > 0:
-            time.sleep(0.1)
+        with measure(timeout=timeout) as measurement:
+            while self.pending or self.get_queue_length() > 0:
+                if measurement.timeouted:
+                    raise WouldWaitMore('timeout exceeded')
+                time.sleep(0.1)
+
+            sync_threadpool(self.executor, max_wait=measurement.time_remaining)
+
+    def _enqueue(self, key: K, method: tp.Callable, *args) -> bool:
+        """
+        Queue an operation on the storage, so that operations on a single key keep their order
+        whatever the number of workers. Call it holding the lock.
 
-        def fix():
-            return
+        :return: whether to submit _execute_pending for this key, ie. no worker is on it yet
+        """
+        if isinstance(self.executor, ProcessPoolExecutor):
+            self.executor.submit(method, *args)     # this object cannot be sent to another process
+            return False
+        operations = self.pending.setdefault(key, collections.deque())
+        operations.append((method, args))
+        return len(operations) == 1
 
-        sync_threadpool(self.executor, max_wait=timeout)
+    def _execute_pending(self, key: K) -> None:
+        while True:
+            with self.cache_lock:
+                operations = self.pending[key]
+                method, args = operations[0]
+            with log_exceptions(logger, swallow_exception=True):
+                method(*args)
+            with self.cache_lock:
+                operations.popleft()
+                if not operations:
+                    del self.pending[key]
+                    return
 
     def _operate(self):
         self.operations += 1
@@ -86,38 +121,49 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
 
     def __getitem__(self, item: K) -> V:
         self._operate()
-        if item not in self.in_cache:
-            try:
-                value = self.executor.submit(self.read_method, item).result()
+        with self.cache_lock:
+            if item in self.cache:
+                return self.cache[item]
+            # an absent item that is yet to be written to the storage was deleted
+            if item in self.in_cache or item in self.pending:
+                raise KeyError(item)
+            modifications = self.modifications
+        try:
+            value = self.executor.submit(self.read_method, item).result()
+        except KeyError:
+            if self.store_key_errors:
                 with self.cache_lock:
-                    self.in_cache.add(item)
-                    self.cache[item] = value
-                return value
-            except KeyError:
-                if self.store_key_errors:
-                    with self.cache_lock:
+                    if modifications == self.modifications:
                         self.in_cache.add(item)
-                raise
-        else:
-            if item not in self.cache and self.store_key_errors:
-                raise KeyError()
-            else:
-                return self.cache[item]
+            raise
+        with self.cache_lock:
+            # what was read might be out of date if something has been changed in the meantime
+            if modifications == self.modifications:
+                self.in_cache.add(item)
+                self.cache[item] = value
+        return value
 
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
+        with self.cache_lock:
+            self.modifications += 1
+            if self.store_key_errors:
                 self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+            else:
+                self.in_cache.discard(key)
+            self.cache.pop(key, None)
+            submit = self._enqueue(key, self.delete_method, key)
+        if submit:
+            self.executor.submit(self._execute_pending, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
+            self.modifications += 1
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            submit = self._enqueue(key, self.write_method, key, value)
+        if submit:
+            self.executor.submit(self._execute_pending, key)
         self._operate()
-- 
2.43.0


From e27baa210f6bd62c77d7d802ddea06f8d9859592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:42 +0000
Subject: [PATCH 29/66] fix: SparseMatrix can lose its last cell, is true when
 not empty, ignores absent cells in min() and max(), understands ..., refuses
 negative indices out of range and deletes absent rows without a trace

---
 satella/coding/structures/sparse_matrix.py | 42 +++++++++-------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..08387cf 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -13,10 +13,11 @@ def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
             raise IndexError('Custom slicing is not supported!')
         return Ellipsis
     elif isinstance(inst, int):
-        if isinstance(inst, int):
+        if inst < 0:
+            inst += max_count
             if inst < 0:
-                inst += max_count
-        return inst
+                raise IndexError('Negative index out of range!')
+    return inst
 
 
 class SparseMatrix(tp.Generic[T]):
@@ -59,14 +60,13 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
-        for row in self:
-            for value in row:
-                if value is None:
-                    continue
-                if value > item:
-                    item = value
-        return item
+        return self._extreme(max)
+
+    def _extreme(self, choose: tp.Callable[[tp.Iterable[T]], T]) -> T:
+        values = [value for row in self for value in row if value is not None]
+        if not values:
+            raise IndexError('There are no elements!')
+        return choose(values)
 
     def min(self) -> T:
         """
@@ -74,15 +74,7 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
-        for row in self:
-            for value in row:
-                if value is None:
-                    continue
-
-                if value < item:
-                    item = value
-        return item
+        return self._extreme(min)
 
     def __init__(self, matrix_data: tp.Optional[tp.List[tp.List[T]]] = None):
         self.rows_dict = collections.defaultdict(lambda: collections.defaultdict(lambda: None))
@@ -142,7 +134,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows > 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
@@ -228,9 +220,7 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
-        cols = list(self.rows_dict[row_no].keys())  # Copy it here
-        for col_no in cols:
-            del self[col_no, row_no]
+        del self[:, row_no]
 
     def __setitem__(self, key: KeyArg,
                     value: tp.Union[tp.Iterable[T], T]) -> None:
@@ -303,11 +293,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_column_count(self) -> int:
         return max(self.known_column_count) + 1
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_row_count(self) -> int:
         return max(self.rows_dict) + 1
 
-- 
2.43.0


From fd24ec4995c48dcd433b1cf5d6a7ff7306e086f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:23 +0000
Subject: [PATCH 30/66] fix: SyncableDroppable serves the archive and sync
 requests from the DB as well as from memory, offers exactly what is not yet
 synchronized, cleans the DB up also if nothing is in memory, and survives
 concurrent calls and failures of the DB

---
 .../coding/structures/syncable_droppable.py   | 155 +++++++-----------
 1 file changed, 57 insertions(+), 98 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..59b65ab 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -1,4 +1,3 @@
-import bisect
 import itertools
 import math
 import typing as tp
@@ -154,9 +153,19 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Make sure that everything's that in memory in also stored in the DB.
         """
-        for key, value in self.data_in_memory:
-            self.db_storage.put(key, value)
-        self.data_in_memory = []
+        self._move_to_db(len(self.data_in_memory))
+
+    def _move_to_db(self, count: int) -> None:
+        """
+        Move this many of the earliest entries in memory to the DB
+        """
+        moved = 0
+        try:
+            for key, value in self.data_in_memory[:count]:
+                self.db_storage.put(key, value)
+                moved += 1
+        finally:
+            del self.data_in_memory[:moved]
 
     def cleanup(self) -> None:
         """
@@ -208,31 +217,36 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
-            # We'll serve it from memory
-            for key, value in self.data_in_memory:
-                if key < start:
+        for key, value in self._iterate(start):
+            if key > stop:
+                return
+            yield key, value
+
+    def _iterate(self, start: tp.Optional[K]) -> tp.Iterator[KVTuple]:
+        """
+        Iterate over everything that is stored, first in the DB and then in memory
+
+        :param start: starting key (included), or None to start from the first one
+        """
+        with self:
+            # the entries might get moved from memory to the DB before we get to them
+            in_memory = self.data_in_memory[:]
+            it = self.db_storage.iterate(start)
+        try:
+            for key, value in it:
+                if in_memory and key >= in_memory[0][0]:
+                    break
+                if start is not None and key < start:
                     continue
-                if key > stop:
-                    return
                 yield key, value
-        else:
-            it = self.db_storage.iterate(start)
-            try:
-                for key, value in it:
-                    if key < start:
-                        continue
-                    if key > stop:
-                        return
-                    yield key, value
-                # We must iterate from the memory
-                if self.data_in_memory:
-                    yield from self.get_archive(self.first_key_in_memory, stop)
-            finally:
-                try_close(it)
+        finally:
+            try_close(it)
+        for key, value in in_memory:
+            if start is not None and key < start:
+                continue
+            yield key, value
 
+    @RMonitor.synchronized
     def get_latest_value(self) -> KVTuple:
         """
         Get the piece of data that was added here last
@@ -249,7 +263,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             try:
                 return next(iterator)
             finally:
-                iterator.close()
+                try_close(iterator)
 
     @RMonitor.synchronized
     def cleanup_keep_in_memory(self) -> None:
@@ -263,21 +277,17 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         for index, row in enumerate(self.data_in_memory):
             ts, value = row
             if ts > cutoff_point:
-                for ts, value in self.data_in_memory[:index]:
-                    self.db_storage.put(ts, value)
-                del self.data_in_memory[:index]
+                self._move_to_db(index)
                 break
         else:
             self.sync_to_db()
-            self.data_in_memory = []
-            return
 
     @RMonitor.synchronized
     def cleanup_keep_in_db(self) -> None:
         """
         Clear up the database to conform to our span_to_keep_in_db
         """
-        if self.start_entry is None or not self.data_in_memory:
+        if self.start_entry is None:
             return
         cutoff_span = self.stop_entry - self.span_to_keep_in_db
         if self.start_entry == self.first_key_in_memory:
@@ -288,10 +298,10 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             else:
                 self.start_entry = self.stop_entry = None
         else:
-            if not self._cleanup_the_db():
-                return
-            self.cleanup_keep_in_db()
+            if self._cleanup_the_db():
+                self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
@@ -311,62 +321,6 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         if self.start_entry is None:
             self.start_entry = key
 
-    def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
-            raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
-            raise ValueError('Nothing to synchronize!')
-
-    def _on_sync_request_synced_up_none(self, maximum_entries):
-        # Sync everything
-        iterator = self.db_storage.iterate(None)
-        try:
-            data = list(iterator)
-            if len(data) < maximum_entries:
-                entries_left = maximum_entries - len(data)
-                if entries_left == math.inf:
-                    data = itertools.chain(data, self.data_in_memory)
-                else:
-                    data = itertools.chain(data, self.data_in_memory[:entries_left])
-            return data
-        finally:
-            try_close(iterator)
-
-    def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
-
-    def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
-            # Means we have to sync from memory
-            if self.synced_up_to is None:
-                v = self.data_in_memory
-            else:
-                index = bisect.bisect_right([y[0] for y in self.data_in_memory],
-                                            self.synced_up_to)
-                if maximum_entries == math.inf:
-                    v = self.data_in_memory[index:]
-                else:
-                    v = self.data_in_memory[index:index + maximum_entries]
-        else:
-            # We have to start off the disk
-            data = []
-            iterator = self.db_storage.iterate(self.start_entry)
-            try:
-                v = self.__append_item(data, iterator, maximum_entries)
-            finally:
-                try_close(iterator)
-        return v
-
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
         Return an iterator that will provide the source of the data for synchronization.
@@ -378,13 +332,18 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :return: an iterator of (KVTuple) that should be synchronized against the server
         :raise ValueError: nothing to synchronize!
         """
-        self._assert_correctness(maximum_entries)
+        with self:
+            synced_up_to = self.synced_up_to
+            if self.stop_entry is None or (synced_up_to is not None and
+                                           synced_up_to >= self.stop_entry):
+                raise ValueError('Nothing to synchronize!')
 
-        if self.synced_up_to is None:
-            v = self._on_sync_request_synced_up_none(maximum_entries)
-        else:
-            v = self._on_sync_request_synced_up_is_not_none(maximum_entries)
-        return v
+        data = self._iterate(synced_up_to)
+        if synced_up_to is not None:
+            data = (tpl for tpl in data if tpl[0] > synced_up_to)
+        if maximum_entries is None or maximum_entries == math.inf:
+            return data
+        return itertools.islice(data, maximum_entries)
 
     def on_synced_up_to(self, key: K) -> None:
         """
-- 
2.43.0


From 03ef087f2b104398ec498ee6105e93da786eeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:58 +0000
Subject: [PATCH 31/66] fix: ListDeleter visits every element once backwards as
 well, prev() stops at the first element, remove_items() needs only pop and
 __getitem__; Subqueue can be read while a queue is being added

---
 satella/coding/deleters.py          | 38 ++++++++++++-----------------
 satella/coding/structures/queues.py |  4 +--
 2 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..e99f6b7 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -156,15 +156,16 @@ class ListDeleter(tp.Generic[T]):
         return self
 
     def __next__(self) -> T:
-        if self.direction == DIR_BACKWARD and self.current_index == -1:
-            raise StopIteration('First element reached')
-        if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
-            raise StopIteration('Last element reached')
-        self.current_index += +1 if self.direction == DIR_FORWARD else -1
-        try:
-            return self.list_to_process[self.current_index]
-        except IndexError:
-            raise StopIteration()
+        return self._move(+1 if self.direction == DIR_FORWARD else -1)
+
+    def _move(self, delta: int) -> T:
+        index = self.current_index + delta
+        length = len(self.list_to_process)
+        # the pointer may go at most one past each end of the list
+        self.current_index = max(-1, min(index, length))
+        if not 0 <= index < length:
+            raise StopIteration('No more elements this way')
+        return self.list_to_process[index]
 
     def next(self) -> T:
         """
@@ -180,15 +181,7 @@ class ListDeleter(tp.Generic[T]):
         :return: the previous element
         :raises StopIteration: list is already at the first element!
         """
-        if self.direction == DIR_FORWARD and self.current_index == -1:
-            raise StopIteration('Cannot go previous on a first element!')
-        if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
-            raise StopIteration('Cannot go previous on a last element!')
-        self.current_index += -1 if self.direction == DIR_FORWARD else +1
-        try:
-            return self.list_to_process[self.current_index]
-        except IndexError:
-            raise StopIteration()
+        return self._move(-1 if self.direction == DIR_FORWARD else +1)
 
     def delete(self) -> None:
         self.indices_to_delete.add(self.current_index)
@@ -219,11 +212,10 @@ class ListDeleter(tp.Generic[T]):
         After all of the items have been marked for deletion, delete them
         """
         if not self.removed:
-            index_delta = 0
-            for index, element in enumerate(self.list_to_process[:]):
-                if index in self.indices_to_delete:
-                    self.list_to_process.pop(index - index_delta)
-                    index_delta += 1
+            # starting from the last one, so that these before it keep their indices
+            for index in sorted(self.indices_to_delete, reverse=True):
+                if 0 <= index < len(self.list_to_process):
+                    self.list_to_process.pop(index)
             self.removed = True
 
     def __exit__(self, exc_type, exc_val, exc_tb):
diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..8d50094 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From 5c1c7f4551da8eba2078d9c5c35f34afc0a4f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 32/66] fix: TwoWayDictionary.done works, KeyAwareDefaultDict
 does not create a key upon asking if it has it, a copy of a DictionaryView
 keeps its settings, Proxy supports modulo, await, round to an integer and
 wraps | and &, HashableWrapper's inequality agrees with its equality

---
 .../coding/structures/dictionaries/objects.py | 16 +++++++++++----
 satella/coding/structures/hashable_objects.py |  3 +++
 satella/coding/structures/proxy.py            | 20 ++++++++++++++++---
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3b85141 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -94,6 +94,9 @@ class KeyAwareDefaultDict(tp.MutableMapping[K, V]):
     def __iter__(self) -> tp.Iterator[K]:
         return iter(self.dict)
 
+    def __contains__(self, item: K) -> bool:
+        return item in self.dict
+
     def __init__(self, factory_function: tp.Callable[[K], V], *args, **kwargs):
         self.dict = dict(*args, **kwargs)
         self.factory_function = factory_function
@@ -145,8 +148,9 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        if self._reverse is not None:
+            self._reverse._reverse = None
+            self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
@@ -229,10 +233,14 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return self._like_this_one(self.dictionaries)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return self._like_this_one(copy.deepcopy(self.dictionaries, memo=memo))
+
+    def _like_this_one(self, dictionaries: tp.List[tp.Dict[K, V]]) -> DictionaryView:
+        return DictionaryView(*dictionaries, propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
diff --git a/satella/coding/structures/hashable_objects.py b/satella/coding/structures/hashable_objects.py
index 635484b..9818756 100644
--- a/satella/coding/structures/hashable_objects.py
+++ b/satella/coding/structures/hashable_objects.py
@@ -31,3 +31,6 @@ class HashableWrapper(Proxy):
         else:
             obj2 = other
         return id(my_object) == id(obj2)
+
+    def __ne__(self, other) -> bool:
+        return not self == other
diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..3c00043 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -130,6 +130,18 @@ class Proxy(tp.Generic[T]):
     def __floordiv__(self, other):
         return self.__obj // other
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
     def __rdivmod__(self, other):
         return divmod(other, self.__obj)
 
@@ -183,9 +195,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
@@ -224,7 +238,7 @@ class Proxy(tp.Generic[T]):
         return bool(self.__obj)
 
     def __format__(self, format_spec):
-        return self.__obj.__format__(format_spec)
+        return format(self.__obj, format_spec)
 
     def __next__(self):
         return next(self.__obj)
@@ -290,7 +304,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
@@ -341,7 +355,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From ad9e39660d1083b82db9b7a81db30ccdef32bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 33/66] fix: memoize executes the function in at most one
 thread as documented, cache_memoize tells calls with other keyword arguments
 apart, singletons can be listed before the first one is made

---
 satella/coding/decorators/decorators.py | 31 ++++++++++++-------------
 satella/coding/structures/singleton.py  |  2 +-
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..993cf33 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -1,4 +1,5 @@
 import inspect
+import threading
 import time
 import typing as tp
 import warnings
@@ -165,22 +166,23 @@ def cache_memoize(cache_duration: float, time_getter: tp.Callable[[], float] = t
         def inner(*args, **kwargs):
 
             now = time_getter()
+            key = (args, frozenset(kwargs.items())) if kwargs else args
 
             with Monitor.acquire(fun.memoize_timestamps):
-                if args in fun.memoize_timestamps:
-                    ts = fun.memoize_timestamps[args]
+                if key in fun.memoize_timestamps:
+                    ts = fun.memoize_timestamps[key]
                     if now - ts > cache_duration:
                         with Monitor.release(fun.memoize_timestamps):
                             v = fun(*args, **kwargs)
-                        fun.memoize_timestamps[args] = now
-                        fun.memoize_values[args] = v
+                        fun.memoize_timestamps[key] = now
+                        fun.memoize_values[key] = v
                 else:
                     with Monitor.release(fun.memoize_timestamps):
                         v = fun(*args, **kwargs)
-                    fun.memoize_timestamps[args] = now
-                    fun.memoize_values[args] = v
+                    fun.memoize_timestamps[key] = now
+                    fun.memoize_values[key] = v
 
-                return fun.memoize_values[args]
+                return fun.memoize_values[key]
 
         return inner
 
@@ -203,20 +205,17 @@ def memoize(fun):
     >>> a = expensive_but_idempotent_operation(2)
     >>> b = expensive_but_idempotent_operation(2)   # is much faster than computing the value anew
     """
-    from satella.coding.concurrent.monitor import MonitorDict, Monitor
-
-    fun.memoizer = MonitorDict()
+    fun.memoizer = {}
+    lock = threading.RLock()  # the function might call itself
 
     @wraps(fun)
     def inner(*args, **kwargs):
-        with Monitor.acquire(fun.memoizer):
+        with lock:
             if args in fun.memoizer:
                 return fun.memoizer[args]
-            else:
-                with Monitor.release(fun.memoizer):
-                    v = fun(*args, **kwargs)
-                fun.memoizer[args] = v
-                return v
+            v = fun(*args, **kwargs)
+            fun.memoizer[args] = v
+            return v
 
     return inner
 
diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index fd5dc66..c04713d 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -118,7 +118,7 @@ def get_instances_for_singleton(x) -> tp.List[tp.Tuple]:
     :param x: a class decorated with SingletonWithRegardsTo
     :return: a list of arguments
     """
-    return list(x.__it__)
+    return list(x.__dict__.get('__it__', ()))
 
 
 def delete_singleton_for(x, *args) -> None:
-- 
2.43.0


From b4f7e8ec3b7753e7b2be2fc301c2504e0e2227ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 34/66] fix: resetting a metric removes it from its parent,
 keyword arguments reach the last metric only, labelled series keep the
 metric's labels, internality and timestamp, linkfail reports links by label
 and address, timestamps of plain counters, entries waiting in a metrified
 write-back cache, results of measured generators

---
 satella/instrumentation/metrics/__init__.py          |  7 +++----
 satella/instrumentation/metrics/metric_types/base.py | 11 ++++++++---
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 .../instrumentation/metrics/metric_types/linkfail.py |  6 ++++--
 .../metrics/metric_types/measurable_mixin.py         |  2 +-
 .../instrumentation/metrics/structures/cache_dict.py |  2 +-
 6 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..16e75f7 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -40,18 +40,17 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                             None,
                             adjust_metric_level_for_root(metric_level,
                                                          metric_level_to_set_for_children),
-                            **kwargs)
+                            **(kwargs if metric_name == '' else {}))
             metric.level = MetricLevel.RUNTIME
             root_metric = metric
         elif metric_name == tentative_name:
             metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric,
                                                           metric_level, **kwargs)
         else:
-            metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
-                            **kwargs)
-        metrics[tentative_name] = metric
+            metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..416def8 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -55,12 +55,14 @@ class Metric:
         if self.name == '':
             with metrics.metrics_lock:
                 metrics.metrics = {}
-                metrics.level = MetricLevel.RUNTIME
+                self._level = MetricLevel.RUNTIME
         else:
             with metrics.metrics_lock:
                 metrics.metrics = {k: v for k, v in metrics.metrics.items() if
                                    not k.startswith(self.get_fully_qualified_name() + '.')}
                 del metrics.metrics[self.get_fully_qualified_name()]
+                self.root_metric.children = [child for child in self.root_metric.children
+                                             if child is not self]
         self.children = []
 
     def __init__(self, name, root_metric: 'Metric' = None,
@@ -164,7 +166,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
@@ -207,6 +209,8 @@ class EmbeddedSubmetrics(LeafMetric):
             return
 
         if key in self.children_mapping:
+            if self.enable_timestamp:
+                self.children_mapping[key].last_updated = self.last_updated
             # noinspection PyProtectedMember
             self.children_mapping[key]._handle(*args)
         else:
@@ -239,7 +243,8 @@ class EmbeddedSubmetrics(LeafMetric):
         and having a particular set of labels, and being of level INHERIT.
         """
 
-        return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
+        return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args,
+                              labels={**self.labels, **labels}, internal=self.internal,
                               **self.kwargs)
 
 
diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..1ea0260 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..0ae8784 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -49,7 +49,7 @@ class LinkfailMetric(EmbeddedSubmetrics):
 
     def _handle(self, success: bool, address: int = 0, *args, **labels):
         if self.embedded_submetrics_enabled or labels:
-            return super()._handle(success, address=address, *args, **labels)
+            return super()._handle(success, address, *args, **labels)
         if success:
             self.consecutive_failures[address] = 0
             self.consecutive_successes[address] += 1
@@ -67,6 +67,8 @@ class LinkfailMetric(EmbeddedSubmetrics):
                     self.callback_on_offline(address, self.labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        if self.embedded_submetrics_enabled:
+            return super().to_metric_data()
         mdc = MetricDataCollection()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
@@ -81,5 +83,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..c49a559 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From eae95cec9426bcfbab0dc5b9ab195239cf767ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 35/66] fix: collections of metric data stay consistent when
 prefixed or postfixed and do not share their content, reading JSON does not
 alter it, line breaks in labels are escaped for Prometheus,
 PrometheusHTTPExporterThread exports the documented periods

---
 satella/instrumentation/metrics/data.py       | 33 +++++++++++--------
 .../metrics/exporters/prometheus.py           |  4 +--
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..cab33b6 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -1,3 +1,4 @@
+import copy
 import typing as tp
 
 from satella.coding.structures import frozendict
@@ -56,8 +57,12 @@ class MetricData(JSONAble):
         return 'MetricData(%s, %s, %s, %s)' % (repr(self.name), repr(self.value),
                                                repr(self.labels), repr(self.timestamp))
 
+    def __copy__(self) -> 'MetricData':
+        return MetricData(self.name, self.value, self.labels, self.timestamp, self.internal)
+
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
@@ -75,11 +80,20 @@ class MetricDataCollection(JSONAble):
     __slots__ = ('values',)
 
     def add_labels(self, labels: dict) -> None:
+        self.__alter_each(lambda child: child.add_labels(labels))
+
+    def __alter_each(self, operation: tp.Callable[[MetricData], None]) -> 'MetricDataCollection':
+        """
+        Replace each child with an altered copy of it and return self. Children cannot be changed
+        in place, as their hash might change, and as other collections can hold them too.
+        """
         output = set()
         for child in self.values:
-            child.add_labels(labels)
+            child = copy.copy(child)
+            operation(child)
             output.add(child)
         self.values = output
+        return self
 
     def __repr__(self):
         return 'MetricDataCollection(%s)' % (repr(self.values, ))
@@ -89,7 +103,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
@@ -129,14 +143,11 @@ class MetricDataCollection(JSONAble):
 
     def prefix_with(self, prefix: str) -> 'MetricDataCollection':
         """Prefix every child with given prefix and return self"""
-        for child in self.values:
-            child.prefix_with(prefix)
+        return self.__alter_each(lambda child: child.prefix_with(prefix))
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
-        for child in self.values:
-            child.postfix_with(postfix)
-        return self
+        return self.__alter_each(lambda child: child.postfix_with(postfix))
 
     def __add_metric_data(self, other: MetricData):
         values = self.values.copy()
@@ -178,18 +189,14 @@ class MetricDataCollection(JSONAble):
 
     def set_timestamp(self, timestamp: float) -> 'MetricDataCollection':
         """Assign every child this timestamp and return self"""
-        for child in self.values:
-            child.add_timestamp(timestamp)
-        return self
+        return self.__alter_each(lambda child: child.add_timestamp(timestamp))
 
     def __eq__(self, other: 'MetricDataCollection') -> bool:
         return self.values == other.values
 
     def set_value(self, value) -> 'MetricDataCollection':
         """Set all children to a particular value and return self. Most useful"""
-        for child in self.values:
-            child.value = value
-        return self
+        return self.__alter_each(lambda child: setattr(child, 'value', value))
 
     def remove_internals(self):
         """
diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..ec46f27 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -64,7 +64,7 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
         self.httpd.server_bind()
@@ -103,7 +103,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From 111eb4c9fc236ec8408c7888627c8c3d2a581ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:35 +0000
Subject: [PATCH 36/66] fix: make configuration importable on its own and
 validation errors consistent

---
 satella/configuration/__init__.py         |  1 +
 satella/configuration/schema/base.py      |  2 +-
 satella/configuration/schema/basic.py     |  8 +++++---
 satella/configuration/schema/from_json.py | 16 +++++++++-------
 satella/configuration/schema/structs.py   |  3 ++-
 5 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/satella/configuration/__init__.py b/satella/configuration/__init__.py
index 5d2c95b..891f86d 100644
--- a/satella/configuration/__init__.py
+++ b/satella/configuration/__init__.py
@@ -1,3 +1,4 @@
+import satella.coding  # has to be loaded first, as it imports the schemas
 from . import schema
 from . import sources
 
diff --git a/satella/configuration/schema/base.py b/satella/configuration/schema/base.py
index 3abb886..db851a6 100644
--- a/satella/configuration/schema/base.py
+++ b/satella/configuration/schema/base.py
@@ -48,7 +48,7 @@ class Descriptor:
                  'my_exceptions')
 
     BASIC_MAKER = staticmethod(lambda v: v)
-    MY_EXCEPTIONS = [TypeError, ValueError]  # a list of Exception classes
+    MY_EXCEPTIONS = [TypeError, ValueError, OverflowError]  # a list of Exception classes
     CHECKERS = []  # a list of CheckerCondition
 
     def __init__(self):
diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..92c8756 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -156,6 +156,7 @@ class FileContents(Descriptor):
     This value must be a valid path to a file. The value in your schema will be
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
+    MY_EXCEPTIONS = Descriptor.MY_EXCEPTIONS + [OSError]
 
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
@@ -217,13 +218,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
@@ -231,4 +232,5 @@ class IPv4(Regexp):
     """
     This must be a valid IPv4 address (no hostnames allowed)
     """
-    REGEXP = r'\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}'
+    REGEXP = r'(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}' \
+             r'(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\Z'
diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..6ee954a 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -8,12 +8,10 @@ from .structs import create_key, Dict
 
 
 def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
-    try:
-        if value in PLAIN_ENTRIES:
-            return create_key(BASE_LOOKUP_TABLE[value](),
-                              key, False, None)
-    except KeyError:
+    if value not in PLAIN_ENTRIES:
         raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
+    return create_key(BASE_LOOKUP_TABLE[value](),
+                      key, False, None)
 
 
 def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
@@ -55,13 +53,17 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
             optional = True
             default = value['default']
         optional = value.get('optional', optional)
-        descriptor = BASE_LOOKUP_TABLE[type_](*args)
+        try:
+            descriptor_class = BASE_LOOKUP_TABLE[type_]
+        except KeyError:
+            raise ConfigurationSchemaError('Unknown descriptor type %s' % (type_,))
+        descriptor = descriptor_class(*args)
         return create_key(descriptor, key, optional, default)
 
 
 def _get_descriptor_for(key: str, value: tp.Any) -> Descriptor:
     if value == '':
-        return Descriptor()
+        return create_key(Descriptor(), key, False, None)
     elif isinstance(value, str):
         return _get_descriptor_for_str(key, value)
     elif isinstance(value, dict):
diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 7d55518..51d4d7a 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -55,9 +55,10 @@ class Caster(Descriptor):
     """
 
     def __init__(self, to_cast: tp.Callable[[tp.Any], tp.Any]):
+        super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as(ValueError, ConfigurationValidationError)
+    @rethrow_as((ValueError, TypeError, OverflowError), ConfigurationValidationError)
     def __call__(self, value: ConfigDictValue):
         return self.to_cast(value)
 
-- 
2.43.0


From d9dbe1995dc91c53ed1f298aa0cdd9f0647e5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:20 +0000
Subject: [PATCH 37/66] fix: do not modify configuration sources while merging
 them

---
 satella/configuration/sources/derivative.py | 12 +++++++++++-
 satella/configuration/sources/file.py       |  5 ++++-
 satella/configuration/sources/from_dict.py  |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/satella/configuration/sources/derivative.py b/satella/configuration/sources/derivative.py
index fac0f78..7e63b1e 100644
--- a/satella/configuration/sources/derivative.py
+++ b/satella/configuration/sources/derivative.py
@@ -7,6 +7,16 @@ __all__ = [
 ]
 
 
+def _copy_containers(value):
+    """Copy dicts and lists, so that merging does not change what the sources hold"""
+    if isinstance(value, dict):
+        return {k: _copy_containers(v) for k, v in value.items()}
+    elif isinstance(value, list):
+        return [_copy_containers(v) for v in value]
+    else:
+        return value
+
+
 class AlternativeSource(BaseSource):
     """
     If first source of configuration fails with ConfigurationError, use the next one instead, ad
@@ -96,7 +106,7 @@ class MergingSource(BaseSource):
                 else:
                     raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
             assert isinstance(p, dict), 'what was provided by the config was not a dict'
-            cfg = merge_dicts(cfg, p)
+            cfg = merge_dicts(cfg, _copy_containers(p))
             assert isinstance(cfg, dict), 'what merge_dicts returned wasn''t a dict'
 
         if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
diff --git a/satella/configuration/sources/file.py b/satella/configuration/sources/file.py
index 9a1607e..27d24af 100644
--- a/satella/configuration/sources/file.py
+++ b/satella/configuration/sources/file.py
@@ -146,7 +146,10 @@ else:
                 raise ConfigurationError(
                     'Target responded with HTTP %s' % (r.status_code,))
 
-            return r.json()
+            obj = r.json()
+            if not isinstance(obj, dict):
+                raise ConfigurationError('Target responded with something that is not a dict')
+            return obj
 
 
     __all__.append('HTTPJSONSource')
diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..3972b48 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -62,8 +62,8 @@ def load_source_from_dict(dct: dict) -> BaseSource:
                 return load_source_from_dict(arg)
             else:
                 warnings.warn(
-                    'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
+                    'Unknown type %s while attempting to parse a dict with type, '
+                    'returning original value' % (a_type,), UserWarning)
                 return arg
         else:
             return arg
-- 
2.43.0


From 00b6e4f0829cdca41f821bcdcc148f1ac7c66684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:01 +0000
Subject: [PATCH 38/66] fix: file helpers: absolute paths, undecodable tails,
 reading of AutoflushFile

---
 satella/files.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..978ca3d 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -172,8 +172,8 @@ def read_lines(path: str, delete_empty_lines: bool = True,
     :param encoding: encoding to read the file with
     :return: each line as a separate entry
     """
-    with codecs.open(path, 'r', encoding) as f_in:
-        lines = [line.strip() for line in f_in.readlines()]
+    with open(path, 'rb') as f_in:
+        lines = [line.strip() for line in f_in.read().decode(encoding).splitlines()]
     if delete_empty_lines:
         lines = [line for line in lines if line]
     return lines
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:  # we have reached the root directory
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
@@ -262,19 +265,17 @@ def read_in_file(path: str, encoding: tp.Optional[str] = None,
         raise FileNotFoundError('%s found and is a directory' % (path,))
 
     try:
-        if encoding is None:
-            file = open(path, 'rb')
-        else:
-            file = codecs.open(path, 'r', encoding)
+        file = open(path, 'rb')
     except FileNotFoundError:
         if default is not _NOTSET:
             return default
         raise
 
     try:
-        return file.read()
+        data = file.read()
     finally:
         file.close()
+    return data if encoding is None else data.decode(encoding)
 
 
 def read_re_sub_and_write(path: str, pattern: tp.Union[re.compile, str],
@@ -367,6 +368,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
@@ -455,7 +457,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
@@ -501,12 +504,16 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        p = fle.read()
+        self.__dict__['pointer'] = fle.tell()
+        return p
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
+            if self.pointer is not None:
+                file.seek(self.pointer)
             ptr = file.tell()
             self.__dict__['_Proxy__obj'] = file
             self.__dict__['pointer'] = ptr
@@ -538,6 +545,7 @@ class AutoflushFile(Proxy[io.FileIO]):
         """
         fle = self._open_file()
         val = fle.write(*args, **kwargs)
+        fle.flush()     # it has been appended, and only now the file is aware of that
         self.__dict__['pointer'] = fle.tell()
         return val
 
-- 
2.43.0


From 1bcd2e468f04b191d693274b50af1c25bbc96a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:59 +0000
Subject: [PATCH 39/66] fix: do not let two processes hold the same PID file
 lock

---
 satella/os/pidlock.py | 54 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..ccfb7a7 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -2,6 +2,11 @@ import os
 
 import psutil
 
+try:
+    import fcntl
+except ImportError:  # not available on Windows
+    fcntl = None
+
 from satella.exceptions import ResourceLocked
 
 
@@ -54,29 +59,38 @@ class PIDFileLock:
 
         :raises ResourceLocked: if lock if held
         """
-        try:
-            self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
-        except (OSError, FileExistsError):
-            with open(self.path, 'r') as fin:
-                data = fin.read().strip()
+        while not self._try_to_acquire():
+            pass
+        return True
+
+    def _try_to_acquire(self) -> bool:
+        with os.fdopen(os.open(self.path, os.O_CREAT | os.O_RDWR), 'rb+') as file:
+            if fcntl is not None:
+                # so that nobody else examines and takes over the same file meanwhile
+                fcntl.flock(file, fcntl.LOCK_EX)
 
             try:
-                pid = int(data)
+                pid = int(file.read())
             except ValueError:
-                os.unlink(self.path)
-                return self.acquire()
-
-            if pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
-            else:
-                # does not exist
-                os.unlink(self.path)
-                return self.acquire()
-
-        fd = os.fdopen(self.file_no, 'w')
-        fd.write(str(os.getpid()) + '\n')
-        fd.close()
-        return True
+                pid = None  # nobody holds it
+
+            if pid is not None and pid in {x.pid for x in psutil.process_iter()}:
+                exc = ResourceLocked(pid)
+                exc.pid, exc.is_alive = pid, True
+                raise exc
+
+            file.seek(0)
+            file.truncate()
+            file.write(b'%d\n' % (os.getpid(),))
+            file.flush()
+
+            try:
+                if not os.path.samestat(os.fstat(file.fileno()), os.stat(self.path)):
+                    return False
+            except FileNotFoundError:
+                return False  # holder has removed it before we took it over
+            self.file_no = file.fileno()
+            return True
 
     def __enter__(self) -> None:
         self.acquire()
-- 
2.43.0


From 63c6c1bbdc541e234912ba0dd061925ab5d69090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 40/66] fix: transaction: close the cursor whatever fails,
 accept any callable

---
 satella/db.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..24a7956 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -1,4 +1,3 @@
-import inspect
 import logging
 
 logger = logging.getLogger(__name__)
@@ -36,7 +35,8 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        # a connection might be callable as well, so that can't be used to tell them apart
+        if not hasattr(self._connection, 'cursor'):
             conn = self._connection()
             self._connection = conn
             return conn
@@ -44,17 +44,19 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
-        if exc_val is not None and self.log_exception:
-            logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
-
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            if exc_val is None:
+                self.connection.commit()
+            else:
+                self.connection.rollback()
+
+            if exc_val is not None and self.log_exception:
+                logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
+        finally:
+            try:
+                self.cursor.close()
+            finally:
+                if self.close_the_connection_after:
+                    self.connection.close()
 
         return False
-- 
2.43.0


From 4462872a8204ca41836e582db273fa4c5dcb1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:56 +0000
Subject: [PATCH 41/66] fix: retry, back-off and stopwatches keep their
 declared limits

---
 satella/coding/decorators/retry_dec.py | 13 ++++++------
 satella/time/backoff.py                | 28 ++++++++++++--------------
 satella/time/measure.py                |  1 -
 satella/time/misc.py                   |  2 +-
 4 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..f4cd84d 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -61,18 +61,19 @@ def retry(times: tp.Optional[int] = None,
                 iterator = itertools.count()
             else:
                 iterator = range(times)
+            f = None
             for i in iterator:
+                if f is not None and call_between_retries is not None:
+                    call_between_retries(f)
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
-                        call_between_retries(e)
                     continue
-            else:
+                if call_on_success is not None:
+                    call_on_success(i)
+                return y
+            if f is not None:
                 on_failure(f)
                 if call_on_failure is not None:
                     call_on_failure(f)
diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..392a1a4 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -64,7 +64,7 @@ class ExponentialBackoff:
         """
         if self.grace_amount == self.grace_counter:
             if self.counter == 0:
-                self.counter = self.start
+                self.counter = min(self.limit, self.start)
             else:
                 self.counter = min(self.limit, self.counter * 2)
             self.unavailable_until = time.monotonic() + self.counter
@@ -79,25 +79,29 @@ class ExponentialBackoff:
             WouldWaitMore will be raised
         :raises WouldWaitMore: waited for timeout and service still was not healthy
         """
-        with measure(timeout=timeout) as m:
-            while not m.timeouted:
+        # condition is held between the check and the wait, so that success() will not be missed
+        with measure(timeout=timeout) as m, self.condition:
+            while True:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if m.timeouted:
+                    raise WouldWaitMore('timeouted while waiting for service to become healthy')
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
-            raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until  # may be changed by other threads
+        if unavailable_until is None:
             return None
         else:
             t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
+            if t >= unavailable_until:
                 return None
             else:
-                return self.unavailable_until - t
+                return unavailable_until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -105,13 +109,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..969073c 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -197,7 +197,6 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is not None:
             self.started_on = self.time_getter_callable() - self.elapsed
             self.stopped_on = None
-        self.started_on = self.time_getter_callable()
         self.elapsed = None
 
     def update(self) -> None:
diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..da3fe48 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -27,7 +27,7 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
     with measure() as measurement:
         while measurement() < y:
             try:
-                time.sleep(y - measurement())
+                time.sleep(max(0, y - measurement()))
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
-- 
2.43.0


From d61358e18bdd51ec5e6cd074806d7ad036dbc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 42/66] fix: BinaryParser: an offset without a length, an empty
 or an overlong window no longer read outside the stream

---
 satella/parsing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..a733630 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,12 +40,13 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
+        available = len(b_stream) - offset
+        self.length = available if length is None else min(length, available)
 
     def __bytes__(self) -> bytes:
-        return self.b_stream[self.init_ofs:self.init_ofs + self.length]
+        return bytes(self.b_stream[self.init_ofs:self.init_ofs + self.length])
 
     def skip(self, n: int) -> None:
         """
@@ -135,7 +136,7 @@ class BinaryParser:
         """
         st = self._to_struct(st)
 
-        if st.format[0] in {'>', '<', '!', '@'}:
+        if st.format[:1] in {'>', '<', '!', '@', '='}:
             assert len(st.format) == 2, 'Format must span at most 1 character, use ' \
                                         'get_structs for multiples!'
         else:
-- 
2.43.0


From 02247f25dd46d92a873987feeb461862e161cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:43 +0000
Subject: [PATCH 43/66] fix: sequence helpers: short and empty inputs,
 unhashable elements, negative indices, merging of series

---
 satella/coding/iterators.py             |  4 +-
 satella/coding/sequences/iterators.py   | 65 ++++++++++++-------------
 satella/coding/sequences/sequences.py   |  2 +-
 satella/coding/transforms/merge_list.py | 22 +++++----
 satella/coding/transforms/merger.py     | 26 +++++-----
 5 files changed, 59 insertions(+), 60 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..f713ccd 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..dfac47f 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -123,7 +123,7 @@ def walk(obj: T, child_getter: tp.Callable[[T], tp.Optional[tp.List[T]]] = list,
     :param deep_first: if True, deep first will be returned, else it will be breadth first
     :param leaves_only: if True, only leaf nodes (having no children) will be returned
     """
-    a = ConstruableIterator(child_getter(obj))
+    a = ConstruableIterator(child_getter(obj) or ())
     for o in a:
         children = child_getter(o)
         if children is not None:
@@ -217,10 +217,11 @@ class AlreadySeen(tp.Generic[K]):
     >>>     if als.is_unique(elem):
     >>>         ... process the element ...
     """
-    __slots__ = ('set',)
+    __slots__ = ('set', 'list')
 
     def __init__(self):
-        self.set = None  # type: tp.Union[list, set]
+        self.set = set()
+        self.list = []      # unhashable elements
 
     def is_unique(self, key: K) -> bool:
         """
@@ -233,21 +234,17 @@ class AlreadySeen(tp.Generic[K]):
         """
         try:
             hash(key)
-            if self.set is None:
-                self.set = set()
-            if key in self.set:
-                return False
-            self.set.add(key)
-            return True
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
+            if key in self.list or any(elem == key for elem in self.set):
                 return False
-            self.set.append(key)
+            self.list.append(key)
             return True
+        if key in self.set or key in self.list:
+            return False
+        self.set.add(key)
+        return True
 
 
 def unique(lst: Iteratable) -> tp.Iterator[T]:
@@ -404,8 +401,8 @@ def shift(iterable_: tp.Union[tp.Reversible[T], Iteratable],
     if shift_factor >= 0:
         iterator = iter(iterable_)
         elements = []
-        for i in range(shift_factor):
-            elements.append(next(iterator))
+        for elem in itertools.islice(iterator, shift_factor):
+            elements.append(elem)
         return itertools.chain(iterator, elements)
     else:
         if hasattr(iterable_, '__reversed__'):
@@ -415,7 +412,7 @@ def shift(iterable_: tp.Union[tp.Reversible[T], Iteratable],
         else:
             iterator = list(iterable_)
             iterator = iterator[shift_factor:] + iterator[:shift_factor]  # shift's already negative
-            return iterator
+            return iter(iterator)
 
 
 @silence_excs(StopIteration)
@@ -472,9 +469,7 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     warnings.warn('This is deprecated and will be removed in Satella 3.0. '
                   'Please use itertools.islice instead', DeprecationWarning)
 
-    for i in range(n):
-        next(iterator)
-    yield from iterator
+    yield from itertools.islice(iterator, max(n, 0), None)
 
 
 class _ListWrapperIteratorIterator(tp.Iterator[T]):
@@ -565,11 +560,22 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         """
         :raises IndexError: invalid index
         """
-        if isinstance(item, int):
-            if len(self.list) < item + 1:
+        if not isinstance(item, slice):
+            if item < 0:
+                self.exhaust()
+            elif len(self.list) < item + 1:
                 self.advance_to_item(item + 1)
         else:
-            self.advance_to_item(item.stop)
+            step = 1 if item.step is None else item.step
+            if step > 0:
+                last = item.stop
+            else:
+                last = None if item.start is None else item.start + 1
+            if last is None or last < 0 or (item.start is not None and item.start < 0) or \
+                    (item.stop is not None and item.stop < 0):
+                self.exhaust()
+            else:
+                self.advance_to_item(last)
         return self.list[item]
 
     def __next__(self) -> T:
@@ -622,8 +628,7 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     warnings.warn('This is deprecated and will be removed in Satella 3.0. '
                   'Please use itertools.islice instead', DeprecationWarning)
 
-    for i in range(n):
-        yield next(iterator)
+    yield from itertools.islice(iterator, max(n, 0))
 
 
 @for_argument(iter)
@@ -844,13 +849,5 @@ def take_n(iterator: Iteratable, n: int, skip: int = 0) -> tp.List[T]:
     :param skip: elements from the start to skip
     :return: list of p_len n (or shorter)
     """
-    for i in range(skip):
-        next(iterator)
-
-    output = []
-    for i in range(n):
-        try:
-            output.append(next(iterator))
-        except StopIteration:
-            return output
-    return output
+    skip = max(skip, 0)
+    return list(itertools.islice(iterator, skip, skip + max(n, 0)))
diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..697dfe3 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    if iter(seq) is seq:    # it can be iterated over only once        seq = list(seq)    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        # an iterator could be iterated over only once        self.sequence = list(sequence) if isinstance(sequence, tp.Iterator) else sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..1c78924 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -49,15 +50,16 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
         if self.closed:
             raise StopIteration()
 
-        try:
-            k2, v2, i2 = self.pop()
-        except IndexError:
-            self.closed = True
-            return self.k, self.v
+        while True:
+            try:
+                k2, v2, i2 = self.pop()
+            except IndexError:
+                self.closed = True
+                return self.k, self.v
 
-        if k2 == self.k:
+            if k2 != self.k:
+                break
             self.v = self.merge_func(self.v, v2)
-            return next(self)
 
         try:
             return self.k, self.v
@@ -65,11 +67,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..0166f8b 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -17,10 +17,11 @@ class merge_series:
     :raises ValueError: one of the given series was empty
     """
     __slots__ = ('series', 'next_preloaded_values', 'empty', 'timestamps',
-                 'super_next_preloaded_values')
+                 'super_next_preloaded_values', 'last_timestamp')
 
     def __init__(self, *series: tp.Iterator[tp.Tuple[float, tp.Any]]):
         self.series = [iter(x) for x in series]
+        self.last_timestamp = None
         try:
             self.next_preloaded_values = [next(x) for x in self.series]
         except StopIteration:
@@ -62,7 +63,7 @@ class merge_series:
                 self.super_next_preloaded_values[i] = None
 
     def next(self) -> None:
-        minimum_timestamp, _ = min(self.next_preloaded_values)
+        minimum_timestamp = min(v[0] for v in self.next_preloaded_values)
         for i, v in enumerate(self.next_preloaded_values):
             if v[0] == minimum_timestamp:
                 self.advance(i)
@@ -75,17 +76,11 @@ class merge_series:
         :return: whether every value can report for for_ts
         """
         for i, _ in enumerate(self.series):
-            if self.super_next_preloaded_values[i] is None:
-                if self.next_preloaded_values[i][0] > for_ts:
-                    return False
-            else:
-                try:
-                    while not (self.next_preloaded_values[i][0] <= for_ts
-                               < self.super_next_preloaded_values[i][0]):
-                        self.advance(i)
-                except TypeError:  # we've reached the finale
-                    if self.next_preloaded_values[i][0] > for_ts:
-                        return False
+            while self.super_next_preloaded_values[i] is not None and \
+                    self.super_next_preloaded_values[i][0] <= for_ts:
+                self.advance(i)
+            if self.next_preloaded_values[i][0] > for_ts:
+                return False
         return True
 
     def assert_have_timestamps(self) -> None:
@@ -109,8 +104,11 @@ class merge_series:
 
         ts = self.timestamps.pop()
 
-        while not self.assert_preloaded(ts):
+        # timestamps may be scheduled again while the series are being advanced
+        while (self.last_timestamp is not None and ts <= self.last_timestamp) or \
+                not self.assert_preloaded(ts):
             ts = self.timestamps.pop()  # throws IndexError
+        self.last_timestamp = ts
 
         output = (ts, *(v[1] for v in self.next_preloaded_values))
         return output
-- 
2.43.0


From 83c5412ce0454a72069d082eae91c10b2a8c8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:39 +0000
Subject: [PATCH 44/66] fix: exception helpers: recursion, BaseExceptions,
 generator results, any format

---
 satella/coding/recast_exceptions.py | 46 +++++++++++------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..ee3be0c 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import threading
 import typing as tp
 import warnings
 
@@ -73,6 +72,10 @@ class log_exceptions:
         self.severity = severity
         self.format_string = format_string
         self.locals = locals_
+        if exc_types is None:
+            exc_types = BaseException
+        elif not isinstance(exc_types, type):
+            exc_types = tuple(exc_types)
         self.exc_types = exc_types
 
     def __enter__(self):
@@ -87,15 +90,9 @@ class log_exceptions:
         """Return whether the exception has been logged"""
         if not isinstance(e, self.exc_types):
             return False
-        format_dict = {}
-        if '{args}' in self.format_string:
-            format_dict['args'] = args
-        if '{kwargs}' in self.format_string:
-            format_dict['kwargs'] = kwargs
+        format_dict = {'args': args, 'kwargs': kwargs}
         if self.locals is not None:
-            for key, value in self.locals.items():
-                if '{%s}' % (key,) in self.format_string:
-                    format_dict[key] = value
+            format_dict.update(self.locals)
         format_dict['e'] = e
         self.logger.log(self.severity, self.format_string.format(**format_dict),
                         exc_info=e)
@@ -107,8 +104,8 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                    return (yield from fun(*args, **kwargs))
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
@@ -119,7 +116,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     return fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
@@ -172,7 +169,7 @@ class reraise_as:
         def inner(*args, **kwargs):
             try:
                 return fun(*args, **kwargs)
-            except Exception as e:          # pylint: disable=broad-except
+            except BaseException as e:      # pylint: disable=broad-except
                 if isinstance(e, self.source):
                     if self.target_exc is not None:
                         raise self.target_exc(*self.args, **self.kwargs) from e
@@ -233,7 +230,7 @@ class rethrow_as:
         is used as as decorator
     :raises ValueError: you specify both returns and returns_factory
     """
-    __slots__ = 'mapping', 'exception_preprocessor', 'returns', '__exception_remapped', 'returns_factory'
+    __slots__ = 'mapping', 'exception_preprocessor', 'returns', 'returns_factory'
 
     def __init__(self, *pairs: ExceptionList,
                  exception_preprocessor: tp.Optional[tp.Callable[[Exception], str]] = repr,
@@ -259,35 +256,26 @@ class rethrow_as:
         if self.returns is not None and self.returns_factory is not None:
             raise ValueError('You can specify only one of (returns, returns_factory)')
 
-        # this is threading.local because two threads may execute the same function at the
-        # same time, and exceptions from one function would leak to another
-        self.__exception_remapped = threading.local()
-
     def __call__(self, fun: tp.Callable) -> tp.Callable:
         @wraps(fun)
         def inner(*args, **kwargs):
             with self:
-                v = fun(*args, **kwargs)
-            if self.__exception_remapped.was_raised:
-                # This means that the normal flow of execution was interrupted
-                if self.returns is not None:
-                    return self.returns
-                elif self.returns_factory is not None:
-                    return self.returns_factory()
-                return
-            return v
+                return fun(*args, **kwargs)
+            # This means that the normal flow of execution was interrupted
+            if self.returns is not None:
+                return self.returns
+            elif self.returns_factory is not None:
+                return self.returns_factory()
 
         return inner
 
     def __enter__(self):
-        self.__exception_remapped.was_raised = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if exc_type is not None:
             for from_, to in self.mapping:
                 if issubclass(exc_type, from_):
-                    self.__exception_remapped.was_raised = True
                     if to is None:
                         return True
                     raise to(self.exception_preprocessor(exc_val))
-- 
2.43.0


From bba337cb3eda9b5bf3a59fb037f12a3541b988ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:32 +0000
Subject: [PATCH 45/66] fix: leaving a context restores the enclosing one

---
 satella/coding/environment.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..65f645e 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -35,10 +35,9 @@ class Context:
         :param value: if not given, current value of given variable will be taken
         """
         if value is THEY_HATIN:
-            var = self.variables.pop(item)
-        else:
-            var = value
-        self.parent.variables[item] = var
+            value = getattr(self, item)
+            self.variables.pop(item, None)
+        self.parent.variables[item] = value
 
     def __getattr__(self, item: str):
         if item in self.variables:
@@ -56,8 +55,7 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
-        ctxt.parent = parent
+        ctxt = Context(parent=parent, **self.variables)
         local.thread_context = ctxt
         return ctxt
 
@@ -87,13 +85,12 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
-                del local.thread_context
-            except AttributeError:
-                pass
+        # the context that is being left is the one created by __enter__
+        parent = local.thread_context.parent
+        if parent is None:
+            del local.thread_context
         else:
-            local.thread_context = self.parent
+            local.thread_context = parent
         return False
 
     @staticmethod
-- 
2.43.0


From aff90765aec15625b31a78048c3085a4b082bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:54 +0000
Subject: [PATCH 46/66] fix: exception handlers and memory pressure: dumps of
 main thread exceptions, LocalRelativeValue, memory handler install, cleanup
 registrations

---
 satella/exception_handling/dump_to_file.py       |  4 ++--
 satella/exception_handling/memerrhandler.py      |  9 +++++++--
 satella/instrumentation/memory/conditions.py     |  3 ++-
 satella/instrumentation/memory/memthread.py      | 10 ++++++----
 satella/instrumentation/trace_back/trace_back.py | 10 +++++++---
 5 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index de29404..4112414 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -67,7 +67,7 @@ class AsStream:
         elif self.mode == StreamType.MODE_STREAM:
             return self.o
         elif self.mode == StreamType.MODE_DEVNULL:
-            self.o = DevNullFilelikeObject()
+            self.o = DevNullFilelikeObject(binary=not self.human_readable)
             return self.o
 
     def __exit__(self, exc_type, exc_val, exc_tp):
@@ -107,7 +107,7 @@ class DumpToFileHandler(BaseExceptionHandler):
 
     def handle_exception(self, type_, value, traceback) -> bool:
         try:
-            tb = Traceback()
+            tb = Traceback(exc_info=(type_, value, traceback))
         except ValueError:
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
diff --git a/satella/exception_handling/memerrhandler.py b/satella/exception_handling/memerrhandler.py
index 640fd33..694d4fc 100644
--- a/satella/exception_handling/memerrhandler.py
+++ b/satella/exception_handling/memerrhandler.py
@@ -32,8 +32,13 @@ class MemoryErrorExceptionHandler(BaseExceptionHandler):
         if self.installed:
             raise RuntimeError('already installed')
 
-        from .global_eh import GlobalExcepthook
-        GlobalExcepthook().add_hook(self)
+        super().install()
+        self.installed = True
+        return self
+
+    def uninstall(self):
+        super().uninstall()
+        self.installed = False
 
     def handle_exception(self, type_, value, traceback) -> tp.Optional[bool]:
         if not issubclass(type_, MemoryError):
diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..3623774 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,8 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        free = local_maximum_consume - local_memory_data.rss
+        return free / local_maximum_consume < self.value / 100
 
 
 class CustomCondition(BaseCondition):
diff --git a/satella/instrumentation/memory/memthread.py b/satella/instrumentation/memory/memthread.py
index 10bfb4e..989f857 100644
--- a/satella/instrumentation/memory/memthread.py
+++ b/satella/instrumentation/memory/memthread.py
@@ -99,13 +99,15 @@ class MemoryPressureManager(IntervalTerminableThread):
                 # Means we are ENTERING a severity level
                 self.severity_level += delta
                 self.callbacks_on_entered[self.severity_level]()
-                new_list = []
-                for ref, collector in self.objects_to_cleanup_on_entered[self.severity_level]:
+                to_cleanup = self.objects_to_cleanup_on_entered[self.severity_level]
+                # others may be registering their objects right now, so modify it in place
+                for entry in list(to_cleanup):
+                    ref, collector = entry
                     obj = ref()
                     if obj is not None:
                         collector(obj)
-                        new_list.append((ref, collector))
-                self.objects_to_cleanup_on_entered[self.severity_level] = new_list
+                    else:
+                        to_cleanup.remove(entry)
                 if self.log_transitions:
                     logger.warning('Entered severity level %s' % (self.severity_level,))
             elif delta < 0:
diff --git a/satella/instrumentation/trace_back/trace_back.py b/satella/instrumentation/trace_back/trace_back.py
index bd65862..8e56109 100644
--- a/satella/instrumentation/trace_back/trace_back.py
+++ b/satella/instrumentation/trace_back/trace_back.py
@@ -42,6 +42,8 @@ class Traceback(JSONAble):
         Must be either None, in which case an exception must be in progress and will be taken
         else must be an instance of <class 'frame'>.
     :param policy: policy for traceback generation
+    :param exc_info: exception to take, as returned by sys.exc_info(). Default is the exception
+        that is in progress.
     :raise ValueError: there is no traceback to get info from!
         Is any exception in process?
      """
@@ -54,7 +56,7 @@ class Traceback(JSONAble):
         return ''.join(out)
 
     def __init__(self, starting_frame: tp.Optional[types.FrameType] = None,
-                 policy=GenerationPolicy):
+                 policy=GenerationPolicy, exc_info: tp.Optional[tuple] = None):
         if inspect.isclass(policy):
             value_pickling_policy = policy()
         else:
@@ -62,8 +64,10 @@ class Traceback(JSONAble):
 
         self.frames = []  # type: tp.List[StackFrame]
 
+        exc_info = exc_info or sys.exc_info()
+
         if starting_frame is None:
-            tb = sys.exc_info()[2]
+            tb = exc_info[2]
             if tb is not None:
                 f = frame_from_traceback(tb)
             else:
@@ -75,7 +79,7 @@ class Traceback(JSONAble):
             self.frames.append(StackFrame(f, value_pickling_policy))
             f = f.f_back
 
-        self.formatted_traceback = str(traceback.format_exc())
+        self.formatted_traceback = ''.join(traceback.format_exception(*exc_info))
 
     def __eq__(self, other: 'Traceback') -> bool:
         return self.frames == other.frames
-- 
2.43.0


From 4fac9836a3e086b4895219031204c631b19b6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:32 +0000
Subject: [PATCH 47/66] fix: JSON: UTF-8 files, slots of any kind, data object
 inheritance and comparison; stored values that can not be represented

---
 satella/coding/transforms/jsonify.py          |  4 +-
 satella/instrumentation/trace_back/classes.py | 24 +++++++---
 satella/json.py                               | 45 ++++++++++++++-----
 3 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/satella/coding/transforms/jsonify.py b/satella/coding/transforms/jsonify.py
index 1b4184f..8e56733 100644
--- a/satella/coding/transforms/jsonify.py
+++ b/satella/coding/transforms/jsonify.py
@@ -23,7 +23,7 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     elif isinstance(data, (int, float, str)):
         v = data
     elif isinstance(data, enum.Enum):
-        v = data.value
+        v = jsonify(data.value)
     elif isinstance(data, JSONAble):
         v = jsonify(data.to_json())
     elif isinstance(data, tp.Mapping):
@@ -36,6 +36,6 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     else:
         try:
             v = str(data)
-        except TypeError:
+        except Exception:
             v = repr(data)
     return v
diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..7447e26 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -12,6 +12,14 @@ import zlib
 from satella.json import JSONAble
 
 
+def _safe_repr(value: tp.Any) -> str:
+    """repr() that never fails"""
+    try:
+        return repr(value)
+    except BaseException as e:
+        return '<repr unavailable due to %s>' % (type(e).__name__,)
+
+
 class GenerationPolicy:
     """
     A policy that manages generating a traceback
@@ -117,7 +125,8 @@ class StoredVariableValue(JSONAble):
         sv.pickle_type = x['pickle_type']
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
+        else:
+            sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
@@ -137,8 +146,8 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
-        self.type_ = repr(type(value))  # type: str
+        self.repr = _safe_repr(value)  # type: str
+        self.type_ = _safe_repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
 
@@ -153,7 +162,7 @@ class StoredVariableValue(JSONAble):
                 self.pickle_type = 'pickle'
             except BaseException as e:
                 # yes, they all can happen!
-                self.pickle = repr((e,) + e.args).encode('utf8')
+                self.pickle = _safe_repr((e,) + e.args).encode('utf8')
                 self.pickle_type = "failed"
             else:
                 if policy.should_compress(self.pickle):
@@ -191,7 +200,7 @@ class StoredVariableValue(JSONAble):
 
         try:
             return pickle.loads(pickle_)
-        except pickle.UnpicklingError:
+        except Exception:
             raise ValueError(
                 'object picklable, but cannot load in this environment')
 
@@ -223,11 +232,12 @@ class StackFrame(JSONAble):
         self.lineno = frame.f_lineno  # type: int
 
         self.locals = {}  # type: tp.Dict[str, StoredVariableValue]
-        for key, value in frame.f_locals.items():
+        # getting a representation of a value can define new variables, so take a copy
+        for key, value in list(frame.f_locals.items()):
             self.locals[key] = StoredVariableValue(value, policy)
 
         self.globals = {}  # type: tp.Dict[str, StoredVariableValue]
-        for key, value in frame.f_globals.items():
+        for key, value in list(frame.f_globals.items()):
             self.globals[key] = StoredVariableValue(value, policy)
 
     def __eq__(self, other: 'StackFrame') -> bool:
diff --git a/satella/json.py b/satella/json.py
index ac1286b..5d91c53 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -51,13 +51,26 @@ class JSONEncoder(json.JSONEncoder):
                     for k, val in o.__dict__.items():
                         v[k] = self.default(val)
                 except AttributeError:  # o has no attribute '__dict__', try with slots
-                    try:
-                        for slot in o.__slots__:
-                            v[slot] = self.default(getattr(o, slot))
-                    except AttributeError:  # it doesn't have __slots__ either?
+                    slots = self._get_slots(o)
+                    if slots is None:  # it doesn't have __slots__ either?
                         v = '<an instance of %s>' % (o.__class__.__name__,)
+                    else:
+                        for slot in slots:
+                            if hasattr(o, slot):    # it might have never been set
+                                v[slot] = self.default(getattr(o, slot))
         return v
 
+    @staticmethod
+    def _get_slots(o: tp.Any) -> tp.Optional[tp.List[str]]:
+        """Return names of all slots, including the inherited ones. None if there are no __slots__."""
+        if not hasattr(o, '__slots__'):
+            return None
+        names = []
+        for cls in reversed(type(o).__mro__):
+            slots = cls.__dict__.get('__slots__', ())
+            names.extend((slots,) if isinstance(slots, str) else slots)
+        return names
+
 
 def json_encode(x: tp.Any) -> str:
     """
@@ -80,7 +93,7 @@ def write_json_to_file(path: str, value: JSONAble, **kwargs) -> None:
     """
     if kwargs:
         warnings.warn('Do not use kwargs, it has no effect', DeprecationWarning)
-    with open(path, 'w') as f_out:
+    with open(path, 'w', encoding='utf-8') as f_out:
         f_out.write(JSONEncoder().encode(value))
 
 
@@ -113,10 +126,10 @@ def read_json_from_file(path: str) -> JSONAble:
     """
     try:
         import ujson
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             v = ujson.load(f_in)
     except ImportError:
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             try:
                 v = json.load(f_in)
             except json.decoder.JSONDecodeError as e:
@@ -145,12 +158,22 @@ class JSONAbleDataObject:
     >>> assert CultureContext.from_json(a.to_json) == a
     """
 
+    @classmethod
+    def _get_fields(cls) -> tp.List[str]:
+        """Return names of all fields, including the inherited ones"""
+        fields = {}
+        for klass in reversed(cls.__mro__):
+            fields.update(klass.__dict__.get('__annotations__', {}))
+        return list(fields)
+
     def __eq__(self, other) -> bool:
-        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
+        if not isinstance(other, JSONAbleDataObject):
+            return NotImplemented
+        return self.to_json() == other.to_json()
 
     def __hash__(self) -> int:
         hash_ = 0
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             hash_ ^= hash(getattr(self, annotation))
         return hash_
 
@@ -158,7 +181,7 @@ class JSONAbleDataObject:
         """
         :raises ValueError: a non-default value was not provided
         """
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             try:
                 annot_val = kwargs.pop(annotation)
                 setattr(self, annotation, annot_val)
@@ -169,7 +192,7 @@ class JSONAbleDataObject:
     def to_json(self) -> tp.Dict:
         """Convert self to JSONable value"""
         result = {}
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             result[annotation] = getattr(self, annotation)
         return result
 
-- 
2.43.0


From 0dca66cb9678ae2103b1f37d016b19dd739cf4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:59 +0000
Subject: [PATCH 48/66] fix: argument decorators: bind arguments as the call
 itself does; conditions and operations apply to an argument however it is
 passed

---
 satella/coding/decorators/arguments.py     | 86 ++++++++++++----------
 satella/coding/decorators/decorators.py    |  3 +-
 satella/coding/decorators/flow_control.py  |  3 +-
 satella/coding/decorators/preconditions.py | 26 +++++--
 satella/coding/misc.py                     | 80 +++-----------------
 satella/coding/predicates.py               |  1 +
 6 files changed, 81 insertions(+), 118 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2e34ce7 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -5,7 +5,7 @@ import typing as tp
 from inspect import Parameter
 
 from satella.coding.decorators.decorators import wraps
-from satella.coding.misc import source_to_function, get_arguments, call_with_arguments, _get_arguments
+from satella.coding.misc import source_to_function, call_with_arguments, _bind_arguments
 from satella.coding.predicates import PredicateClass, build_structure
 from satella.coding.typing import T, Predicate
 
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = _bind_arguments(fun, args, kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = _bind_arguments(fun, args, kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
@@ -148,13 +148,14 @@ def replace_argument_if(arg_name: str,
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            args_dict = get_arguments(fun, *args, **kwargs)
+            args_dict = _bind_arguments(fun, args, kwargs)
             altered = False
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    args_dict[arg_name] = build_structure(structure, v)
-                    altered = True
+                    if predicate(v):
+                        args_dict[arg_name] = build_structure(structure, v)
+                        altered = True
                 elif isinstance(v, instance_of):
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
@@ -333,42 +334,47 @@ def for_argument(*t_ops: ForArgumentArg, **t_kwops: ForArgumentArg):
             t_kwops[key] = source_to_function(value)
 
     def outer(fun):
-        comparison = False
-        # Check whether this function has any default arguments
-        for param in inspect.signature(fun).parameters.values():
-            try:
-                if Parameter.empty != param.default:
-                    comparison = True
-                    break
-            except (AttributeError, TypeError):
-                comparison = True
-                break
-
-        if comparison:
-            @wraps(fun)
-            def inner(*args, **kwargs):
-                dict_operations = _get_arguments(fun, True, *t_ops, **t_kwops)
-                dict_values = get_arguments(fun, *args, **kwargs)
-                arguments = {}
-                for arg_name in dict_values:
-                    v = dict_values[arg_name]
-                    if arg_name in dict_operations:
-                        f = dict_operations[arg_name]
-                        if callable(f) and f is not None:
-                            v = f(v)
-
-                    arguments[arg_name] = v
-
-                return returns(call_with_arguments(fun, arguments))
-        else:
-            @wraps(fun)
-            def inner(*args, **kwargs):
+        params = inspect.signature(fun).parameters.values()
+        # with neither keyword operations nor default values it is enough to go through args
+        simple = not t_kwops and all(param.default is Parameter.empty for param in params)
+
+        # assign operations to the arguments
+        operations = {}
+        ops_left = list(t_ops)
+        var_positional = var_keyword = None
+        for param in params:
+            if param.kind == Parameter.VAR_POSITIONAL:
+                var_positional = param.name
+            elif param.kind == Parameter.VAR_KEYWORD:
+                var_keyword = param.name
+            elif param.kind != Parameter.KEYWORD_ONLY and ops_left:
+                operations[param.name] = ops_left.pop(0)
+        kw_operations = {}
+        for name, op in t_kwops.items():
+            if any(param.name == name and param.kind != Parameter.VAR_POSITIONAL for param in params):
+                operations[name] = op
+            else:
+                kw_operations[name] = op
+
+        @wraps(fun)
+        def inner(*args, **kwargs):
+            if simple and not kwargs:
                 # add extra 'None' argument if unbound method
                 assert len(args) >= len(t_ops), 'Invalid number of arguments'
-                a = fun(*((_NOP if op2 is None else op2)(arg) for arg, op2 in
-                          itertools.zip_longest(args, t_ops, fillvalue=None)),
-                        **{k: t_kwops.get(k, _NOP)(v) for k, v in kwargs.items()})
-                return returns(a)
+                return returns(fun(*((_NOP if op2 is None else op2)(arg) for arg, op2 in
+                                     itertools.zip_longest(args, t_ops, fillvalue=None))))
+
+            arguments = _bind_arguments(fun, args, kwargs)
+            for arg_name, v in arguments.items():
+                if arg_name == var_positional:
+                    v = tuple((_NOP if op2 is None else op2)(arg) for arg, op2 in
+                              zip(v, itertools.chain(ops_left, itertools.repeat(None))))
+                elif arg_name == var_keyword:
+                    v = {k: kw_operations.get(k, _NOP)(kwarg) for k, kwarg in v.items()}
+                if arg_name in operations:
+                    v = operations[arg_name](v)
+                arguments[arg_name] = v
+            return returns(call_with_arguments(fun, arguments))
 
         return inner
 
diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index 993cf33..782d62a 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -56,7 +56,8 @@ def chain_functions(fun_first: tp.Callable[..., tp.Union[tp.Tuple[tp.Tuple, tp.D
             if isinstance(ret, dict):
                 args = ()
                 kwargs = ret
-            elif isinstance(ret, tuple) and len(ret) == 2:
+            elif isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[0], tuple) \
+                    and isinstance(ret[1], dict):
                 args, kwargs = ret
             elif isinstance(ret, tuple):
                 args = ret
diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..40a0f29 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+            else:
+                return fun(self, item)
 
         return inner
 
diff --git a/satella/coding/decorators/preconditions.py b/satella/coding/decorators/preconditions.py
index f27d431..3be7cfa 100644
--- a/satella/coding/decorators/preconditions.py
+++ b/satella/coding/decorators/preconditions.py
@@ -1,3 +1,4 @@
+import inspect
 import itertools
 import typing as tp
 
@@ -68,18 +69,33 @@ def precondition(*t_ops: Condition, **kw_opts: Condition):
     from satella.coding.recast_exceptions import rethrow_as
 
     def outer(fun):
+        try:
+            names = [param.name for param in inspect.signature(fun).parameters.values()
+                     if param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD]
+            offset = len([param for param in inspect.signature(fun).parameters.values()
+                          if param.kind == inspect.Parameter.POSITIONAL_ONLY])
+        except (TypeError, ValueError):
+            names, offset = [], 0       # a builtin, the names of its arguments are not known
+
         @wraps(fun)
         def inner(*args, **kwargs):
-            assert len(args) >= len(tn_ops), 'More preconditions than positional arguments!'
-
-            for kwarg in kwargs:
+            # conditions on positional arguments, that were passed by their names
+            by_name = dict(zip(names, tn_ops[offset:]))
+            positional = names[:max(0, len(args) - offset)]
+            for name in positional:
+                by_name.pop(name, None)
+            assert len(args) + len(by_name) >= len(tn_ops), 'More preconditions than positional arguments!'
+
+            for kwarg, value in itertools.chain(kwargs.items(), zip(positional, args[offset:])):
                 if kwarg in kw_ops:
-                    if not kw_ops[kwarg](kwargs[kwarg]):
+                    if not kw_ops[kwarg](value):
                         raise PreconditionError('Argument %s failed precondition check' %
                                                 (kwarg,))
 
             with rethrow_as(TypeError, PreconditionError):
-                for arg, precond in itertools.zip_longest(args, tn_ops, fillvalue=_TRUE):
+                by_position = itertools.zip_longest(args, tn_ops[:len(args)], fillvalue=_TRUE)
+                named = ((kwargs[name], precond) for name, precond in by_name.items() if name in kwargs)
+                for arg, precond in itertools.chain(by_position, named):
                     if precond(arg) is False:
                         raise PreconditionError(
                             'Argument of value %s failed precondition check' % (arg,))
diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..1caa92d 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -5,8 +5,6 @@ from inspect import Parameter, signature
 from queue import Empty
 from queue import Queue
 
-from satella.coding.recast_exceptions import rethrow_as
-
 
 def enum_value(value):
     """
@@ -269,76 +267,14 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
-    return _get_arguments(function, False, *args, **kwargs)
-
+    return _bind_arguments(function, args, kwargs)
 
-# pylint: disable=too-many-locals
-@rethrow_as(IndexError, TypeError)
-def _get_arguments(function: tp.Callable, special_behaviour: bool, *args, **kwargs):
-    """
-    :param special_behaviour: enable special behaviour to be used in for_arguments
-    """
-    sig = signature(function)
-    params = sig.parameters.values()
-    local_vars = {}
-
-    positionals = [param for param in reversed(params) if
-                   param.kind in (Parameter.POSITIONAL_OR_KEYWORD, Parameter.POSITIONAL_ONLY, Parameter.VAR_POSITIONAL)]
-    args = list(reversed(args))
-
-    arguments_left = set(param.name for param in params)
-    while positionals:
-        arg = positionals.pop()
-        arg_kind = arg.kind
-        arg_name = arg.name
-        if arg_kind == Parameter.VAR_POSITIONAL and not special_behaviour:
-            local_vars[arg_name] = tuple(reversed(args))
-        else:
-            try:
-                v = args.pop()
-                arguments_left.remove(arg_name)
-            except IndexError:
-                try:
-                    if arg.default != Parameter.empty:
-                        raise AttributeError()
-                    break
-                except (AttributeError, TypeError):
-                    v = arg.default
-            local_vars[arg_name] = v
-
-    keywords = [param for param in params if param.kind in (Parameter.POSITIONAL_OR_KEYWORD,
-                                                            Parameter.KEYWORD_ONLY,
-                                                            Parameter.VAR_KEYWORD)
-                and param.name in arguments_left]
-
-    for keyword in keywords:
-        keyword_name = keyword.name
-        if keyword.kind == Parameter.VAR_KEYWORD and not special_behaviour:
-            local_vars[keyword_name] = kwargs
-            continue
-        try:
-            v = kwargs.pop(keyword_name)
-        except KeyError:
-            try:
-                if Parameter.empty == keyword.default:
-                    if not special_behaviour:
-                        raise TypeError('Not enough keyword arguments')
-                    v = None
-                else:
-                    v = keyword.default
-            except (AttributeError, TypeError):
-                continue  # comparison was impossible
-
-        local_vars[keyword_name] = v
-
-    for param in params:
-        param_name = param.name
-        if param_name not in local_vars:
-            if not special_behaviour:
-                raise TypeError('Not enough keyword arguments')
-            local_vars[param_name] = None
 
-    return local_vars
+def _bind_arguments(function: tp.Callable, args: tp.Sequence, kwargs: tp.Dict) -> tp.Dict[str, tp.Any]:
+    """Same as get_arguments(), but no keyword argument can be mistaken for ours"""
+    bound = signature(function).bind(*args, **kwargs)
+    bound.apply_defaults()
+    return dict(bound.arguments)
 
 
 def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any]) -> tp.Any:
@@ -363,8 +299,10 @@ def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any])
         if param_name not in arguments:
             if param_kind in (Parameter.VAR_KEYWORD, Parameter.VAR_POSITIONAL):
                 continue
-            elif param.default == Parameter.empty:
+            elif param.default is Parameter.empty:
                 raise TypeError('Argument %s not found' % (param_name,))
+            elif param_kind != Parameter.KEYWORD_ONLY:
+                args.append(param.default)  # so that the following ones end up in their places
             continue
 
         if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..ce4bf01 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -187,6 +187,7 @@ class PredicateClass:
                                          'is an instance of instance')
 
     length = make_operation_single_arg(len, 'Return a predicate returning length of it''s argument')
+    len = length
 
     __contains__ = make_operation_two_args(operator.contains)
     __getattr__ = make_operation_two_args(getattr)
-- 
2.43.0


From 6dd7fa7abfae4429f5921faab222deb3f84a695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 49/66] fix: overloads: skip implementations of other arity,
 choose the most specific one, bind as methods; empty optionals compare false

---
 satella/coding/optionals.py   | 16 +++++++++
 satella/coding/overloading.py | 61 ++++++++++++++++++++++-------------
 2 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index ea754b5..d64d7b8 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -78,6 +78,22 @@ class Optional(Proxy[T]):
             return False
         return other == me
 
+    def __lt__(self, other) -> bool:
+        me, other = extract_optional(self), extract_optional(other)
+        return False if me is None or other is None else me < other
+
+    def __le__(self, other) -> bool:
+        me, other = extract_optional(self), extract_optional(other)
+        return False if me is None or other is None else me <= other
+
+    def __gt__(self, other) -> bool:
+        me, other = extract_optional(self), extract_optional(other)
+        return False if me is None or other is None else me > other
+
+    def __ge__(self, other) -> bool:
+        me, other = extract_optional(self), extract_optional(other)
+        return False if me is None or other is None else me >= other
+
     def __getattr__(self, item):
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index fb8fdbe..c879bad 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import inspect
+import types
 import typing as tp
 
 
@@ -58,24 +59,28 @@ class TypeSignature(inspect.Signature):
 
     def can_be_called_with_args(self, *args, **kwargs) -> bool:
         """Can this type signature be called with following arguments?"""
-        called = self._bind(*args, **kwargs)
+        return self.matches(*args, **kwargs)
 
-        # pylint: disable=protected-access
-        return all(issubclass(self.signature.parameters.get(arg_name, NONEARGS)._annotation, arg_value)
-                   for arg_name, arg_value in called.items())
+    def _positional_types(self) -> tp.List[type]:
+        return [object if param.annotation is inspect.Parameter.empty else param.annotation
+                for param in self._parameters.values()
+                if param.kind in (inspect.Parameter.POSITIONAL_ONLY,
+                                  inspect.Parameter.POSITIONAL_OR_KEYWORD)]
 
     def is_more_generic_than(self, b: TypeSignature) -> bool:
-        """Is this type signature more generic than an other?"""
-        if self == {}:
-            for key in self:
-                key1 = self[key]
-                key2 = b.get(key, None)
-                if key2 is None:
-                    return key2 == {}
-
-                if key2.is_more_generic_than(key1):
-                    return False
-        return True
+        """
+        Is this type signature more generic than an other?
+
+        It is, if it has the same number of positional arguments, and accepts everything
+        that the other one does for every one of them, and something more for some.
+        """
+        own, other = self._positional_types(), b._positional_types()
+        if len(own) != len(other) or own == other:
+            return False
+        try:
+            return all(issubclass(type2, type1) for type1, type2 in zip(own, other))
+        except TypeError:
+            return False        # annotations that are not types can't be compared
 
     def __lt__(self, other: TypeSignature) -> bool:
         return self.is_more_generic_than(other)
@@ -84,10 +89,16 @@ class TypeSignature(inspect.Signature):
         """
         Does this invocation match this signature?
         """
-        bound_args = self.bind(*args, **kwargs)
-        bound_args.apply_defaults()
+        try:
+            bound_args = self.bind(*args, **kwargs)
+        except TypeError:
+            return False        # wrong number or names of arguments
         for param_name, param_value in bound_args.arguments.items():
-            if not isinstance(param_value, self._parameters[param_name].annotation):
+            param = self._parameters[param_name]
+            if param.annotation is inspect.Parameter.empty or \
+                    param.kind in (inspect.Parameter.VAR_POSITIONAL, inspect.Parameter.VAR_KEYWORD):
+                continue
+            if not isinstance(param_value, param.annotation):
                 return False
         return True
 
@@ -133,7 +144,7 @@ class overload:
 
     def overload(self, fun):
         """
-        :raises ValueError: this signature already has an overload
+        :raises TypeError: this signature already has an overload
         """
         sign = TypeSignature.from_fun(fun)
         if sign in self.type_signatures_to_functions:
@@ -151,8 +162,14 @@ class overload:
         for sign, fun in self.type_signatures_to_functions.items():
             if sign.matches(*args, **kwargs):
                 matching.append((sign, fun))
-        matching.sort()     # This sorting should result in most precise class at the end of the list
         if not matching:
             raise TypeError('No matching entries!')
-        else:
-            return matching[-1][1](*args, **kwargs)  # call the most specific function you could find
+
+        # call the most specific function you could find
+        for sign, fun in matching:
+            if not any(sign.is_more_generic_than(sign2) for sign2, _ in matching):
+                break
+        return fun(*args, **kwargs)
+
+    def __get__(self, instance, owner=None):
+        return self if instance is None else types.MethodType(self, instance)
-- 
2.43.0


From 536078ed24fcc7130eea51a38c377d50f3710aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:42 +0000
Subject: [PATCH 50/66] fix: value objects: frozendict accepts no mutation,
 DictionaryEQAble compares whole dictionaries, typednamedtuple and deep
 comparison

---
 satella/coding/deep_compare.py               | 10 ++++++++--
 satella/coding/structures/immutable.py       |  6 ++++++
 satella/coding/structures/mixins/enums.py    |  3 +++
 satella/coding/structures/mixins/eqable.py   | 15 ++-------------
 satella/coding/structures/typednamedtuple.py | 19 +++++++++++++------
 5 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..a84d7e4 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -38,16 +38,22 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        if not isinstance(b, (set, frozenset)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        if not isinstance(b, (list, tuple)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        if not isinstance(b, dict):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
@@ -58,6 +64,6 @@ def assert_equal(a, b):
         try:
             if a == b:
                 return
-            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         except TypeError:
             pass
+        raise Inequal(a, b, InequalityReason.NOT_EQUAL)
diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..d6d1677 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,12 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    __delitem__ = __ior__ = clear = pop = popitem = setdefault = update
+
+    def __reduce__(self):
+        # the default way of copying and unpickling dictionaries sets the items one by one
+        return self.__class__, (dict(self),)
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
diff --git a/satella/coding/structures/mixins/enums.py b/satella/coding/structures/mixins/enums.py
index 51201ea..b763ff3 100644
--- a/satella/coding/structures/mixins/enums.py
+++ b/satella/coding/structures/mixins/enums.py
@@ -87,6 +87,9 @@ class ComparableIntEnum(HashableIntEnum):
             return self.value == other
         return self.value == int(other)
 
+    def __ne__(self, other: 'ComparableIntEnum') -> bool:
+        return not self == other
+
 
 class OnStrOnlyName:
     """
diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..d4b979a 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -1,6 +1,3 @@
-from ..immutable import NOT_EQUAL_TO_ANYTHING
-
-
 class DictionaryEQAble:
     """
     A class mix-in that defines __eq__ and __ne__ to be:
@@ -12,15 +9,7 @@ class DictionaryEQAble:
     def __eq__(self, other) -> bool:
         if type(self) != type(other):
             return False
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return False
-        return True
+        return self.__dict__ == other.__dict__
 
     def __ne__(self, other) -> bool:
-        if type(self) != type(other):
-            return True
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return True
-        return False
+        return not self == other
diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..6679055 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -8,8 +8,11 @@ def _nth(it, n):
 
 def _adjust(q):
     var, type_ = q
-    if type_ in (None, 'self') or isinstance(var, type_):
-        return var
+    try:
+        if type_ in (None, 'self') or isinstance(var, type_):
+            return var
+    except TypeError:
+        pass    # a callable, which is not a type
     return type_(var)
 
 
@@ -42,21 +45,25 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
 
     class Wrapper(MyCls):
         __doc__ = MyCls.__doc__
-        __name__ = MyCls.__name__
+        __slots__ = ()
 
         def __new__(cls, *args, **kwargs):
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
 
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
             for next_field_name in fieldnames[len(nargs):]:
                 try:
-                    nargs.append(_adjust((kwargs.pop(next_field_name), mapping[next_field_name])))
+                    value = kwargs.pop(next_field_name)
                 except KeyError:
-                    raise TypeError('Field %s not given', next_field_name)
+                    raise TypeError('Field %s not given' % (next_field_name,))
+                nargs.append(_adjust((value, mapping[next_field_name])))
 
             if len(kwargs) > 0:
                 raise TypeError('Too many parameters')
 
-            return MyCls.__new__(MyCls, *nargs)
+            return MyCls.__new__(cls, *nargs)
 
+    Wrapper.__name__ = Wrapper.__qualname__ = cls_name
     return Wrapper
-- 
2.43.0


From f737cd1fb818a03d43e25f0685ccfa0fc67ff0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 51/66] fix: generator wrappers: run the action exactly once
 however the generator is driven, do not hide exceptions of self-closing
 generators, keep length factories

---
 satella/coding/generators.py | 25 +++++++++++++++----------
 satella/coding/iterators.py  | 15 +++++++++------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..140c9f4 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -12,7 +12,7 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
     via close()
     """
 
-    __slots__ = 'generator', 'args', 'kwargs', 'closed'
+    __slots__ = 'generator', 'args', 'kwargs', 'closed', '__completed'
 
     def __init__(self, generator: tp.Generator, *args, **kwargs):
         """
@@ -21,6 +21,7 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
         :param kwargs: keyword arguments to invoke action_to_run with
         """
         self.closed = False
+        self.__completed = False
         self.generator = generator
         self.args = args
         self.kwargs = kwargs
@@ -29,26 +30,30 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
         self.closed = True
         self.generator.close()
 
+    def _resume(self, method, *args):
+        try:
+            return method(*args)
+        except StopIteration:
+            if not self.closed and not self.__completed:
+                self.__completed = True
+                self.action_to_run(*self.args, **self.kwargs)
+            raise
+
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self._resume(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self._resume(self.generator.__next__)
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self._resume(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
-        try:
-            return self.generator.__next__()
-        except StopIteration:
-            if not self.closed:
-                self.action_to_run(*self.args, **self.kwargs)
-            raise
+        return self._resume(self.generator.__next__)
 
     @abstractmethod
     def action_to_run(self):
diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index f713ccd..a09e1e4 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -1,6 +1,5 @@
 import typing as tp
 
-from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import NoArgCallable
 
 
@@ -61,8 +60,12 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        try:
+            return self.generator.send(obj)
+        except StopIteration:
+            self.stopped = True
+            raise
 
     def __next__(self):
         try:
@@ -81,7 +84,7 @@ class SelfClosingGenerator:
     def close(self) -> None:
         if not self.stopped:
             # we might get a generator-generating function as an argument
-            with silence_excs(TypeError):
+            if hasattr(type(self.generator), '__next__'):
                 exhaust(self.generator)
 
             self.stopped = True
@@ -107,7 +110,7 @@ class hint_with_length:
     """
     __slots__ = 'generator', 'length', 'length_factory'
 
-    def __init__(self, generator: tp.Generator, length: tp.Optional[int],
+    def __init__(self, generator: tp.Generator, length: tp.Optional[int] = None,
                  length_factory: tp.Optional[NoArgCallable[int]] = None):
         self.generator = generator
         if length is None and length_factory is None:
@@ -119,7 +122,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 589cd1c410e0e25970ede262d8802c57773fd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:13 +0000
Subject: [PATCH 52/66] fix: CopyDocsFrom copies documentation of every method;
 import_from looks only into the package itself and honours its flags for
 modules

---
 satella/coding/metaclasses.py |  1 -
 satella/imports.py            | 11 ++++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
diff --git a/satella/imports.py b/satella/imports.py
index b129afa..8f1c6e4 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -1,5 +1,4 @@
 import importlib
-import os
 import pkgutil
 import typing as tp
 import warnings
@@ -48,10 +47,10 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
     :param skip_not_having_all: skip module's not having an __all__ entry
     :raise AttributeError: module's __all__ contained entry that was not in this module
     """
-    for importer, modname, is_pkg in pkgutil.walk_packages(path, onerror=lambda x: None):
+    for importer, modname, is_pkg in pkgutil.iter_modules(path):
+        if modname.startswith('_') and skip_single_underscores:
+            continue
         if recursive and is_pkg:
-            if modname.startswith('_') and skip_single_underscores:
-                continue
             module = importlib.import_module(package_prefix + '.' + modname)
             try:
                 mod_all = module.__all__
@@ -61,7 +60,7 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
                 mod_all = []
                 if create_all:
                     module.__all__ = mod_all
-            import_from([os.path.join(path[0], modname)], package_prefix + '.' + modname, mod_all,
+            import_from(module.__path__, package_prefix + '.' + modname, mod_all,
                         module.__dict__, recursive=recursive,
                         fail_on_attributerror=fail_on_attributerror, create_all=create_all,
                         skip_not_having_all=skip_not_having_all,
@@ -74,6 +73,8 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
             try:
                 package_ref = module.__all__
             except AttributeError:
+                if skip_not_having_all:
+                    continue
                 warnings.warn('Module %s does not contain __all__, enumerating it instead' %
                               (package_prefix + '.' + modname,), RuntimeWarning)
                 package_ref = dir(module)
-- 
2.43.0


From c61a5dbffe9c72c0f0d71886261a2c25595a43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:13 +0000
Subject: [PATCH 53/66] fix: build_structure handles all items of dictionaries
 and strings

---
 satella/coding/predicates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index ce4bf01..f488b2a 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -259,13 +259,13 @@ def build_structure(struct: tp.Union[tuple, list, dict],
     else:
         from satella.coding.structures import HashableWrapper
         if isinstance(struct, tp.MutableMapping):
-            new_dict = {}
+            f = {}
             for key, value in struct.items():
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
-                new_dict[key] = value
-                f = new_dict
-                break
+                f[key] = value
+        elif isinstance(struct, (str, bytes, bytearray)):
+            f = struct
         elif isinstance(struct, tp.Sequence):
             new_seq = []
             for elem in struct:
-- 
2.43.0


From c64f41a1c565bb70dbba2963c415eb2dd3a1da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:13 +0000
Subject: [PATCH 54/66] fix: exceptions: str() with keyword arguments, pickling
 of MetricAlreadyExists, coded exceptions sharing a builtin base are of
 different hierarchies

---
 satella/exceptions.py | 52 ++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..e2b0ee8 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -26,35 +26,25 @@ class CustomException(Exception):
         self.kwargs = kwargs
 
     def __str__(self) -> str:
-        a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
-        try:
-            if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
-        except AttributeError:
-            pass
-        a += ')'
-        return a
+        return '%s(%s)' % (self.__class__.__qualname__.split('.')[-1], self._repr_arguments())
 
     def __repr__(self) -> str:
-        a = '%s%s(%s' % ((self.__class__.__module__ + '.')
-                         if self.__class__.__module__ != 'builtins' else '',
-                         self.__class__.__qualname__,
-                         ', '.join(map(repr, self.args)))
-        try:
-            if self.kwargs:
-                a += ', ' + (', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])),
-                                           self.kwargs.items())))
-        except AttributeError:
-            pass
-        a += ')'
-        return a
+        return '%s%s(%s)' % ((self.__class__.__module__ + '.')
+                             if self.__class__.__module__ != 'builtins' else '',
+                             self.__class__.__qualname__,
+                             self._repr_arguments())
+
+    def _repr_arguments(self) -> str:
+        arguments = list(map(repr, self.args))
+        # a child class might have not called our constructor
+        for key, value in getattr(self, 'kwargs', {}).items():
+            arguments.append('%s=%r' % (key, value))
+        return ', '.join(arguments)
 
 
-def get_base_of_bases(classes):
-    class_bases = ()
-    for class_ in classes:
-        class_bases += class_.__bases__
-    return class_bases
+def get_coded_hierarchies(class_):
+    """Return a set of those ancestors of class_ that derive directly from CodedCustomException"""
+    return {base for base in class_.__mro__ if CodedCustomException in base.__bases__}
 
 
 class CodedCustomExceptionMetaclass(type):
@@ -70,15 +60,7 @@ class CodedCustomExceptionMetaclass(type):
         if cls is CodedCustomException:
             return super().__instancecheck__(instance)
 
-        class_base = (cls,)
-        while CodedCustomException not in get_base_of_bases(class_base) and class_base:
-            class_base = get_base_of_bases(class_base)
-
-        inst_base = (instance.__class__,)
-        while CodedCustomException not in get_base_of_bases(inst_base) and inst_base:
-            inst_base = get_base_of_bases(inst_base)
-
-        if len(set(class_base).intersection(set(inst_base))) == 0:
+        if get_coded_hierarchies(cls).isdisjoint(get_coded_hierarchies(instance.__class__)):
             # These classes belong in different exception hierarchies
             return False
 
@@ -201,7 +183,7 @@ class MetricAlreadyExists(BaseSatellaError):
     """Metric with given name already exists, but with a different type"""
 
     def __init__(self, msg, name, requested_type, existing_type):
-        super().__init__(msg)
+        super().__init__(msg, name, requested_type, existing_type)
         self.name = name
         self.requested_type = requested_type
         self.existing_type = existing_type
-- 
2.43.0


From acb0004664efa0d8c0af2c3d2480aa037df8e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:37 +0000
Subject: [PATCH 55/66] fix: do not deadlock on output of child processes,
 release hang_until_sig on SIGINT, daemonize with groups, whereis yields only
 files

---
 satella/os/daemon.py  | 16 ++++++++--------
 satella/os/misc.py    |  5 +++--
 satella/os/signals.py | 36 ++++++++++++++++--------------------
 satella/processes.py  | 19 ++++++++-----------
 4 files changed, 35 insertions(+), 41 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8a394f1..3affb2a 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -1,6 +1,5 @@
 import os
 import sys
-import types
 import typing as tp
 
 try:
@@ -58,22 +57,23 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
-    _parse_ug(gid, grp, 'gr_gid', os.setegid)
+    # group goes first, as after changing the user we might not be allowed to change it
+    _parse_ug(gid, grp.getgrnam, 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd.getpwnam, 'pw_uid', os.seteuid)
 
 
-def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
+def _parse_ug(no: tp.Union[str, int], get_by_name: tp.Callable[[str], tp.Any], field_name: str,
               osfun: tp.Callable[[int], None]) -> None:
     if no is not None:
         if isinstance(no, str):
-            no = getattr(module.getpwnam(no), field_name)
+            no = getattr(get_by_name(no), field_name)
         osfun(no)
 
 
 def _redirect_descriptors_to_null() -> None:
-    sys.stdin = open(DEVNULL, 'rb')
-    sys.stdout = open(DEVNULL, 'wb')
-    sys.stderr = open(DEVNULL, 'wb')
+    sys.stdin = open(DEVNULL, 'r')
+    sys.stdout = open(DEVNULL, 'w')
+    sys.stderr = open(DEVNULL, 'w')
 
 
 def _close_descriptors() -> None:
diff --git a/satella/os/misc.py b/satella/os/misc.py
index 10377d6..29a5fd9 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -47,8 +47,9 @@ def safe_listdir(directory: str) -> tp.Iterator[str]:
 def _whereis(directory: str, name, available_extensions):
     for file in safe_listdir(directory):
         path = os.path.join(directory, file)
-        with silence_excs(FileNotFoundError):
-            if 'x' in stat.filemode(os.stat(path).st_mode):
+        with silence_excs(OSError):
+            mode = os.stat(path).st_mode
+            if stat.S_ISREG(mode) and mode & 0o111:
                 if sys.platform.startswith('win'):  # a POSIX-specific check
                     file = file.upper()  # paths are not case-sensitive on Windows
 
diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..bb3ae3f 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -25,23 +25,19 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     :param sleep_interval: amount of time to sleep between checking for termination condition.
     """
     global end
-    extra_signals = extra_signals or ()
-
-    old_term = signal.getsignal(signal.SIGTERM)
-    olds = []
-
-    # Set the signal handler
-    signal.signal(signal.SIGTERM, __sighandler)
-    for s in extra_signals:
-        olds.append(signal.getsignal(s))
-        signal.signal(s, __sighandler)
-
-    while not end:
-        sleep(sleep_interval, True)
-
-    # Unset the signal handler
-    signal.signal(signal.SIGTERM, old_term)
-    for s, old_handler in zip(extra_signals, olds):
-        signal.signal(s, old_handler)
-
-    end = False  # reset for next use
+    olds = {}
+
+    try:
+        # Set the signal handler
+        for s in {signal.SIGTERM, signal.SIGINT, *(extra_signals or ())}:
+            olds[s] = signal.getsignal(s)
+            signal.signal(s, __sighandler)
+
+        while not end:
+            sleep(sleep_interval, True)
+    finally:
+        # Unset the signal handler
+        for s, old_handler in olds.items():
+            signal.signal(s, old_handler)
+
+        end = False  # reset for next use
diff --git a/satella/processes.py b/satella/processes.py
index c60c225..6233844 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
@@ -81,10 +79,9 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     finally:
         fut.result()
 
-    if encoding is None:
-        result = b''.join(stdout_list)
-    else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+    result = b''.join(stdout_list)
+    if encoding is not None:
+        result = result.decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From 2f3d1b6bce89cb2b4ca8785759f9d1e2a361b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 56/66] fix: make CPU time collection safe to use from many
 threads and honour string intervals in CPU-aware threads

---
 satella/instrumentation/cpu_time/collector.py | 36 +++++++++++--------
 .../instrumentation/cpu_time/concurrency.py   |  2 +-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index d64097a..2da1106 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import collections
 import multiprocessing
 import os
+import threading
 import time
 import typing as tp
 
@@ -22,6 +23,9 @@ pCPUtimes = collections.namedtuple('pcputimes',
                                     'iowait'], defaults=[0, 0, 0, 0, 0])
 
 
+_instance_lock = threading.Lock()
+
+
 class _CPUProfileBuilderThread(SingleStartThread):
     """
     A CPU profile builder thread and a core singleton object to use.
@@ -43,18 +47,18 @@ class _CPUProfileBuilderThread(SingleStartThread):
         self.data = []
         self.process = psutil.Process(os.getpid())
         self.percentiles_requested = list(percentiles_requested)
-        self.percentile_values = []
-        self.percentiles_regenerated = False
+        self.percentile_values = {}  # type: tp.Dict[float, float]
         self.started = False
         self.own_load_average = collections.deque()  # typing: tuple[float, pCPUtimes]
 
     @staticmethod
     def get_instance():
         """Access instances of this thread in this way ONLY!"""
-        if _CPUProfileBuilderThread.thread is None:
-            _CPUProfileBuilderThread.thread = _CPUProfileBuilderThread()
-            _CPUProfileBuilderThread.thread.start()
-        return _CPUProfileBuilderThread.thread
+        with _instance_lock:
+            if _CPUProfileBuilderThread.thread is None:
+                _CPUProfileBuilderThread.thread = _CPUProfileBuilderThread()
+                _CPUProfileBuilderThread.thread.start()
+            return _CPUProfileBuilderThread.thread
 
     def save_load(self, times: pCPUtimes) -> None:
         while len(self.own_load_average) > 3 and \
@@ -85,14 +89,13 @@ class _CPUProfileBuilderThread(SingleStartThread):
     def request_percentile(self, percent: float) -> None:
         if percent not in self.percentiles_requested:
             self.percentiles_requested.append(percent)
-            self.percentiles_regenerated = False
 
     def percentile(self, percent: float) -> float:
         if not self.data:
             return 0
-        if percent in self.percentiles_requested and self.percentiles_regenerated:
-            return self.percentile_values[self.percentiles_requested.index(percent)]
-        else:
+        try:
+            return self.percentile_values[percent]
+        except KeyError:    # requested after the profile was built
             return percentile(self.data, percent)
 
     def is_done(self) -> bool:
@@ -105,12 +108,9 @@ class _CPUProfileBuilderThread(SingleStartThread):
         for _ in range(int(self.window_size)):
             time.sleep(1)
             data.append(calculate_occupancy_factor())
-        percentiles = []
         data.sort()
-        for percent in self.percentiles_requested:
-            percentiles.append(percentile(data, percent))
-        self.percentile_values = percentiles
-        self.percentiles_regenerated = True
+        self.percentile_values = {percent: percentile(data, percent)
+                                  for percent in self.percentiles_requested}
         self.data = data
 
     @repeat_forever
@@ -186,9 +186,15 @@ def sleep_cpu_aware(seconds: tp.Union[str, float], of_below: tp.Optional[float]
 
 previous_cf = None  # type: float
 previous_timestamp = None  # type: float
+_occupancy_lock = threading.Lock()  # guards both of these
 
 
 def _calculate_occupancy_factor() -> float:
+    with _occupancy_lock:
+        return _calculate_occupancy_factor_unlocked()
+
+
+def _calculate_occupancy_factor_unlocked() -> float:
     c = psutil.cpu_times()
     try:
         try:
diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..86590f1 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = self.seconds * 0.1 if max_sooner is None else max_sooner
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From 39623b5f3ef1509c58a4fedd32e42c2fed494953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:34 +0000
Subject: [PATCH 57/66] fix: make tainted objects usable: repr, setting
 attributes, in-place operators and classes

---
 satella/debug/tainting/environment.py |  2 +-
 satella/debug/tainting/tainteds.py    | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/satella/debug/tainting/environment.py b/satella/debug/tainting/environment.py
index fb4eb32..219184d 100644
--- a/satella/debug/tainting/environment.py
+++ b/satella/debug/tainting/environment.py
@@ -59,11 +59,11 @@ class TaintingEnvironment:
 
         :raises RuntimeError: there is already a tainting session in progress
         """
-        self.enabled = True
         global local
         if hasattr(local, 'satella_tainting'):
             raise RuntimeError('Other tainting session in progress')
         local.satella_tainting = self
+        self.enabled = True
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5f04002..75d0ff3 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+import operator
 import typing as tp
 
 from satella.coding.typing import T
@@ -56,14 +57,14 @@ class TaintedObject(tp.Generic[T]):
                     dict_to_transform = v.__dict__
                 for key in dict_to_transform:
                     dict_to_transform[key] = taint(dict_to_transform[key])
-            except AttributeError:
-                pass  # must have been a primitive type
+            except (AttributeError, TypeError):
+                pass  # must have been a primitive type or a class
 
     def __setattr__(self, key: str, value: tp.Any):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
             super().__setattr__(key, value)
         else:
-            super().__setattr__(key, taint(value))
+            setattr(self.__v, key, taint(value))
 
     def __iter__(self) -> tp.Iterator[TaintedObject[T]]:
         for item in self.__v:
@@ -79,8 +80,7 @@ class TaintedObject(tp.Generic[T]):
     def __call__(self, *args, **kwargs):
         return taint(self.__v(*args, **kwargs))
 
-    @might_accept_tainted(taint_result=True)
-    def __repr__(self) -> str:
+    def __repr__(self) -> str:  # it must be a str otherwise Python will complain
         return '%s TAINTED' % str(self.__v)
 
     @might_accept_tainted(taint_result=True)
@@ -133,10 +133,13 @@ class TaintedObject(tp.Generic[T]):
     def __radd__(self, other) -> TaintedObject:
         return other + self.__v
 
+    def __in_place(self, result: T) -> TaintedObject[T]:
+        # an immutable value is replaced only for the variable on the left-hand side
+        return self if result is self.__v else taint(result)
+
     @might_accept_tainted()
     def __iadd__(self, other) -> TaintedObject:
-        self.__v += other
-        return self
+        return self.__in_place(operator.iadd(self.__v, other))
 
     @might_accept_tainted(taint_result=True)
     def __sub__(self, other) -> TaintedObject:
@@ -144,8 +147,7 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __isub__(self, other) -> TaintedObject:
-        self.__v -= other
-        return self
+        return self.__in_place(operator.isub(self.__v, other))
 
     @might_accept_tainted(taint_result=True)
     def __mul__(self, other) -> TaintedObject:
@@ -153,8 +155,7 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __imul__(self, other) -> TaintedObject:
-        self.__v *= other
-        return self
+        return self.__in_place(operator.imul(self.__v, other))
 
     def __dir__(self) -> tp.Iterable[str]:
         return dir(self.__v)
-- 
2.43.0


From 9e830296294b92d5b8f16374e6d572e277bbcf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 58/66] fix: attach exceptions to spans of traced futures,
 finish spans of cancelled ones, do not share tags between spans

---
 satella/opentracing/exceptions.py |  6 +++++-
 satella/opentracing/trace.py      | 14 +++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/satella/opentracing/exceptions.py b/satella/opentracing/exceptions.py
index 89eed5c..e015438 100644
--- a/satella/opentracing/exceptions.py
+++ b/satella/opentracing/exceptions.py
@@ -43,8 +43,12 @@ def trace_exception(span: tp.Optional[Span], exc_type: tp.Optional[ExceptionClas
         exc_type, exc_val, exc_tb = sys.exc_info()
         if exc_type is None:
             return
+    if exc_val is None:
+        exc_val = sys.exc_info()[1]
+    if exc_tb is None:
+        exc_tb = getattr(exc_val, '__traceback__', None) or sys.exc_info()[2]
 
-    tb = Traceback(exc_tb.tb_frame).pretty_format()
+    tb = '' if exc_tb is None else Traceback(exc_tb.tb_frame).pretty_format()
     if len(tb) > max_tb_length:
         tb = tb[:max_tb_length]
 
diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 6596c07..8d1b9d5 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -1,5 +1,4 @@
 import copy
-import sys
 import typing as tp
 import warnings
 from concurrent.futures import Future
@@ -45,12 +44,10 @@ def trace_function(tracer, name: str, tags: tp.Optional[dict] = None,
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            nonlocal tags, tags_factory
-            my_tags = tags
+            my_tags = copy.copy(tags)       # spans are free to change their tags
             if tags_factory is not None:
-                if tags is None:
-                    tags = {}
-                my_tags = copy.copy(tags)
+                if my_tags is None:
+                    my_tags = {}
                 for key, value in tags_factory:
                     try:
                         v = value(*args, **kwargs)
@@ -83,11 +80,10 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         future = wrap_future(future)
 
     def close_future(fut):
-        exc = fut.exception()
+        exc = None if fut.cancelled() else fut.exception()
         if exc is not None:
             # noinspection PyProtectedMember
-            exc_type, value, traceback = sys.exc_info()
-            Span._on_error(span, exc_type, value, traceback)
+            Span._on_error(span, type(exc), exc, exc.__traceback__)
         span.finish()
 
     future.add_done_callback(close_future)
-- 
2.43.0


From 5a3a88a173f04f6938e32f5738a8e827e19466e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 59/66] fix: do not block forever when terminating a Prometheus
 exporter that does not serve

---
 .../instrumentation/metrics/exporters/prometheus.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ec46f27..0f4d75c 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -61,16 +61,20 @@ class PrometheusHTTPExporterThread(TerminableThread):
                 return self_2.get_metric_data()
 
         self.httpd = HTTPServer()
+        self.httpd.timeout = 0.5  # how often to check whether to terminate
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
                                       time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
-        self.httpd.server_bind()
-        self.httpd.server_activate()
-        self.httpd.serve_forever()
-        self.httpd.server_close()
+        try:
+            self.httpd.server_bind()
+            self.httpd.server_activate()
+            while not self.terminating:
+                self.httpd.handle_request()
+        finally:
+            self.httpd.server_close()
 
     def get_metric_data(self) -> MetricDataCollection:
         """
@@ -88,7 +92,6 @@ class PrometheusHTTPExporterThread(TerminableThread):
 
         :param force: whether to terminate this thread by injecting an exception into it
         """
-        self.httpd.shutdown()
         return super().terminate(force=force)
 
 
-- 
2.43.0


From 50866502ef49578610e59078b1db11983609b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 60/66] fix: MetrifiedThreadPoolExecutor ignores
 thread_name_prefix

---
 satella/instrumentation/metrics/structures/threadpool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..ca78ba7 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -99,7 +99,7 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
         self._initargs = initargs
         self._idle_semaphore = threading.Semaphore(0)
         self._broken = False
-        if not hasattr(self, '_thread_name_prefix'):
+        if thread_name_prefix or not hasattr(self, '_thread_name_prefix'):
             self._thread_name_prefix = thread_name_prefix or ("ThreadPoolExecutor-%d" %
                                                               self._counter())
         self.waiting_time_metric = time_spent_waiting or EmptyMetric('')
-- 
2.43.0


From 80d6ebe1651396085f53ba8140096027b72086bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 61/66] fix: MetrifiedThreadPoolExecutor drops its pending work
 when it is garbage collected

---
 satella/instrumentation/metrics/structures/threadpool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index ca78ba7..3b25483 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -34,14 +34,16 @@ def _worker(executor_reference, work_queue, initializer, initargs):
                 # Measure the time spent in waiting
                 executor = executor_reference()
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
+                if executor is not None:
+                    executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
                 del executor
 
                 with measure() as measurement:
                     work_item.run()
 
                 executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                if executor is not None:
+                    executor.executing_time_metric.handle(executor.metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
-- 
2.43.0


From 83d8e55363f42c8091c6626b848e801bcea7ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 62/66] fix: do not wait for the output of a process that was
 killed for taking too long

---
 satella/processes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index 6233844..046e3fc 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -75,9 +75,10 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     except subprocess.TimeoutExpired:
         proc.kill()
         proc.wait()
+        # don't wait for the output, as it might be held open by processes that it started
         raise TimeoutError('Process did not complete within %s seconds' % (timeout,))
-    finally:
-        fut.result()
+
+    fut.result()
 
     result = b''.join(stdout_list)
     if encoding is not None:
-- 
2.43.0


From d302dbbe50ac3f2578076fa791367906ea139af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 63/66] fix: IDAllocator: a top limit of zero is a limit

---
 satella/coding/concurrent/id_allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b9f04d2..c410be1 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,7 +71,7 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
-- 
2.43.0


From 19b2ee26ee6a6d3a87a4be7bcb4bbb10b3979037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 64/66] fix: create_key: don't rename a descriptor that serves
 another key already

---
 satella/configuration/schema/structs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 51d4d7a..133730c 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -35,6 +35,7 @@ DictDescriptorKey = tp.NewType('DictDescriptorKey', Descriptor)
 
 def create_key(descriptor: Descriptor, name: str, optional: bool = False,
                default: tp.Optional[tp.Any] = None) -> DictDescriptorKey:
+    descriptor = copy.copy(descriptor)      # the same descriptor may serve many keys
     descriptor.name = name
     descriptor.optional = optional
     descriptor.default = default
-- 
2.43.0


From 960951aa2d6ee4eeaec4614ddba73f981ef9c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:55 +0000
Subject: [PATCH 65/66] fix: get_size misses slots and contents of subclasses,
 takes elements of iterators; a memory dump dies on a failing repr

---
 .../instrumentation/memory/dump_frames_on.py  |  8 +++--
 .../instrumentation/memory/get_object_size.py | 33 +++++++++++++++++--
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/memory/dump_frames_on.py b/satella/instrumentation/memory/dump_frames_on.py
index 965f93e..466a247 100644
--- a/satella/instrumentation/memory/dump_frames_on.py
+++ b/satella/instrumentation/memory/dump_frames_on.py
@@ -23,7 +23,7 @@ def dump_memory_on(output: tp.TextIO = sys.stderr):
         typ = type(obj)
         try:
             size = sys.getsizeof(obj)
-        except TypeError:
+        except Exception:       # __sizeof__ can be overridden and can raise anything
             size = 0
         if typ in top_scores:
             top_scores[typ] += size
@@ -31,7 +31,11 @@ def dump_memory_on(output: tp.TextIO = sys.stderr):
         else:
             top_scores[typ] = size
             instances[typ] = 1
-        output.write('object %s type %s size %s bytes\n' % (repr(obj), typ, size))
+        try:
+            representation = repr(obj)
+        except Exception as e:      # a single object cannot break the dump
+            representation = '<repr failed with %s>' % (type(e).__name__, )
+        output.write('object %s type %s size %s bytes\n' % (representation, typ, size))
 
     output.write('----------------------------------\n')
     output.write('Memory usage scores: \n')
diff --git a/satella/instrumentation/memory/get_object_size.py b/satella/instrumentation/memory/get_object_size.py
index 67c604b..c1467bc 100644
--- a/satella/instrumentation/memory/get_object_size.py
+++ b/satella/instrumentation/memory/get_object_size.py
@@ -1,5 +1,27 @@
+import array
+import collections
 import platform
 import sys
+import types
+
+CONTAINERS = (list, tuple, set, frozenset, collections.deque)
+# these hold no objects, just data
+PLAIN_DATA = (str, bytes, bytearray, memoryview, range, array.array)
+
+
+def _slots(obj):
+    """Return the values of filled in slots of an object"""
+    values = []
+    for cls in type(obj).__mro__:
+        if '__slots__' not in vars(cls):
+            continue
+        for member in vars(cls).values():
+            if isinstance(member, types.MemberDescriptorType):
+                try:
+                    values.append(member.__get__(obj, cls))
+                except AttributeError:      # slot is empty
+                    pass
+    return values
 
 
 # shamelessly stolen from
@@ -26,8 +48,13 @@ def get_size(obj, seen=None) -> int:
     if isinstance(obj, dict):
         size += sum(get_size(v, seen) for v in obj.values())
         size += sum(get_size(k, seen) for k in obj.keys())
-    elif hasattr(obj, '__dict__'):
-        size += get_size(obj.__dict__, seen)
-    elif hasattr(obj, '__iter__') and not isinstance(obj, (str, bytes, bytearray)):
+    elif isinstance(obj, CONTAINERS):
+        size += sum(get_size(i, seen) for i in obj)
+    elif not hasattr(obj, '__dict__') and hasattr(obj, '__iter__') \
+            and not hasattr(obj, '__next__') and not isinstance(obj, PLAIN_DATA):
+        # iterators are left alone, as measuring their elements would consume them
         size += sum(get_size(i, seen) for i in obj)
+    if hasattr(obj, '__dict__'):
+        size += get_size(obj.__dict__, seen)
+    size += sum(get_size(i, seen) for i in _slots(obj))
     return size
-- 
2.43.0


From e571b0c6ce2305e87b05f9440cf1a7cf4c31de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 66/66] fix: a metrified thread pool that counts waiting tasks
 is never collected and its threads never end

---
 satella/instrumentation/metrics/structures/threadpool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 3b25483..07ca9e6 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -108,7 +108,8 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
         self.executing_time_metric = time_spent_executing or EmptyMetric('')
         self.metric_level = metric_level
         if waiting_tasks is not None:
-            waiting_tasks.callable = lambda: self.get_queue_length()
+            # don't refer to the executor, else it would never get collected
+            waiting_tasks.callable = self._work_queue.qsize
 
     def get_queue_length(self) -> int:
         """
-- 
2.43.0

