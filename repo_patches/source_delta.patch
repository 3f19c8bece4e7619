From 2e7ed0ba3f2148021d64ac5886d7112d2843f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 01/52] fix: a failed start leaves a runnable not running

Runnable.start() kept the generator of a run() which failed, so that
is_running() was true and the instance could not be started again.
---
 profiling/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..3891527 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -45,12 +45,19 @@ class Runnable(object):
         if self.is_running():
             raise RuntimeError('Already started')
         self._running = self.run(*args, **kwargs)
+        running = self._running
         try:
-            yielded = next(self._running)
-        except StopIteration:
-            raise TypeError('run() must yield just one time')
-        if yielded is not None:
-            raise TypeError('run() must yield without value')
+            try:
+                yielded = next(running)
+            except StopIteration:
+                raise TypeError('run() must yield just one time')
+            if yielded is not None:
+                running.close()
+                raise TypeError('run() must yield without value')
+        except:
+            # not started after all.
+            self._running = None
+            raise
 
     def stop(self):
         """Stops the instance.
-- 
2.43.0


From 59cd46fc4b31e27a61d05417f40b4bec1f23d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 02/52] fix: starting a running profiler does not reset its
 session

Profiler.start() cleared the statistics and the start times before it was
refused with RuntimeError.
---
 profiling/profiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..33083bf 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -46,6 +46,8 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
+        if self.is_running():
+            raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
         self.stats.clear()
-- 
2.43.0


From 4c6eaaa6bf2be95f6b958f711e9d728e16fab823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 03/52] fix: a failing deferred call does not prevent the
 remaining ones

---
 profiling/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 3891527..59c4265 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -152,12 +152,19 @@ def deferral():
     """
     deferred = []
     defer = lambda f, *a, **k: deferred.append((f, a, k))
+    def call_deferred():
+        try:
+            while deferred:
+                f, a, k = deferred.pop()
+                f(*a, **k)
+        finally:
+            # a failed call doesn't prevent the others.
+            if deferred:
+                call_deferred()
     try:
         yield defer
     finally:
-        while deferred:
-            f, a, k = deferred.pop()
-            f(*a, **k)
+        call_deferred()
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From c75c16ecd8b27deecc910295cffe64a17d978550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 04/52] fix: threads started while profiling are not recorded
 after the stop

They keep the profiling function they inherited, which went on recording
into the statistics of the finished session.
---
 profiling/sampling/samplers.py | 7 +++++++
 profiling/tracing/__init__.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..ca35a8a 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -84,8 +84,13 @@ class TracingSampler(Sampler):
         super(TracingSampler, self).__init__(*args, **kwargs)
         self.sampled_times = {}
         self.counter = 0
+        #: Whether the session ended.  Threads which started during the session
+        #: still call :meth:`_profile`.
+        self._stopped = False
 
     def _profile(self, profiler, frame, event, arg):
+        if self._stopped:
+            return
         t = thread_clock()
         thread_id = _thread.get_ident()
         sampled_at = self.sampled_times.get(thread_id, 0)
@@ -104,6 +109,8 @@ class TracingSampler(Sampler):
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
         with deferral() as defer:
+            self._stopped = False
+            defer(setattr, self, '_stopped', True)
             sys.setprofile(profile)
             defer(sys.setprofile, None)
             threading.setprofile(profile)
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..5fd00d5 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -67,6 +67,10 @@ class TracingProfiler(Profiler):
     #: :meth:`_profile`.
     overhead = 0.0
 
+    #: Whether the session ended.  Threads which started during the session
+    #: still call :meth:`_profile`.
+    _stopped = False
+
     def __init__(self, base_frame=None, base_code=None,
                  ignored_frames=(), ignored_codes=(), timer=None):
         timer = timer or TIMER_CLASS()
@@ -80,7 +84,7 @@ class TracingProfiler(Profiler):
     def _profile(self, frame, event, arg):
         """The callback function to register by :func:`sys.setprofile`."""
         # c = event.startswith('c_')
-        if event.startswith('c_'):
+        if self._stopped or event.startswith('c_'):
             return
         time1 = self.timer()
         frames = self.frame_stack(frame)
@@ -137,6 +141,8 @@ class TracingProfiler(Profiler):
         with deferral() as defer:
             self._times_entered.clear()
             self.overhead = 0.0
+            self._stopped = False
+            defer(setattr, self, '_stopped', True)
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             threading.setprofile(self._profile)
-- 
2.43.0


From 7dc230d074e18e9d17a38afc6142cc21f4eca742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 05/52] fix: TracingSampler forgets dead threads instead of
 living ones

_clear_for_dead_threads() removed the sample times of the living threads,
which were sampled too early then.  A new thread which got the identifier of
a dead thread was not sampled until its clock reached that of the dead one.
---
 profiling/sampling/samplers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index ca35a8a..ef7ce7b 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -94,6 +94,9 @@ class TracingSampler(Sampler):
         t = thread_clock()
         thread_id = _thread.get_ident()
         sampled_at = self.sampled_times.get(thread_id, 0)
+        if t < sampled_at:
+            # a new thread got the identifier of a dead thread.
+            sampled_at = self.sampled_times[thread_id] = 0
         if t - sampled_at < self.interval:
             return
         self.sampled_times[thread_id] = t
@@ -103,8 +106,10 @@ class TracingSampler(Sampler):
             self._clear_for_dead_threads()
 
     def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
-            self.sampled_times.pop(thread_id, None)
+        alive = sys._current_frames()
+        for thread_id in list(self.sampled_times):
+            if thread_id not in alive:
+                self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
-- 
2.43.0


From 859234e453c0edd48c0bc2be2be12874ca805091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 06/52] fix: calls and samples of a frame first seen as an
 ancestor are recorded

VoidRecordingStatistics drops hits and times, but ensure_child() kept
returning it even if a recording statistics was required later.
---
 profiling/stats.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..d7e067b 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -251,10 +251,16 @@ class RecordingStatistics(Statistics):
 
     def ensure_child(self, code, adding_stat_class=None):
         stats = self._children.get(code)
+        stat_class = adding_stat_class or type(self)
         if stats is None:
-            stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              not issubclass(stat_class, VoidRecordingStatistics)):
+            # the absent frame is present now.  It has to be recorded from now.
+            children, stats = stats._children, stat_class(code)
+            stats._children = children
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
-- 
2.43.0


From ef90a10f0d7f9bafce16c2951795eba94a7fe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 07/52] fix: ignored frames are inlined into their callers

The caller of an ignored frame was dropped from the frame stack instead of
the ignored frame, and the ignored code was recorded below the caller's
caller.
---
 profiling/profiler.py          | 4 ++++
 profiling/sampling/__init__.py | 9 ++++++++-
 profiling/tracing/__init__.py  | 3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 33083bf..a2e1e12 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -57,6 +57,10 @@ class Profiler(Runnable):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
 
+    def is_ignored(self, frame):
+        return (frame in self.ignored_frames or
+                frame.f_code in self.ignored_codes)
+
     def exclude_code(self, code):
         """Excludes statistics of the given code."""
         try:
diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..fa18c42 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -65,12 +65,19 @@ class SamplingProfiler(Profiler):
     def sample(self, frame):
         """Samples the given frame."""
         frames = self.frame_stack(frame)
+        if self.is_ignored(frame):
+            # it is inlined into the caller.
+            frame = frames[-1] if frames else None
         if frames:
             frames.pop()
         parent_stats = self.stats
         for f in frames:
             parent_stats = parent_stats.ensure_child(f.f_code, void)
-        stats = parent_stats.ensure_child(frame.f_code, RecordingStatistics)
+        if frame is None:
+            stats = parent_stats
+        else:
+            code = frame.f_code
+            stats = parent_stats.ensure_child(code, RecordingStatistics)
         stats.own_hits += 1
 
     def run(self):
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 5fd00d5..2a34006 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -86,6 +86,9 @@ class TracingProfiler(Profiler):
         # c = event.startswith('c_')
         if self._stopped or event.startswith('c_'):
             return
+        if self.is_ignored(frame):
+            # it is inlined into the caller.
+            return
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if frames:
-- 
2.43.0


From 9be88ec942299c324f49afde3df7862adbc00345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 08/52] fix: the times of a result end when the profiler stops

result() measured the CPU and wall time until now even if the profiler had
been stopped long before.
---
 profiling/profiler.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index a2e1e12..ac84276 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -50,9 +50,19 @@ class Profiler(Runnable):
             raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
+        self._cpu_time_stopped = self._wall_time_stopped = None
         self.stats.clear()
         return super(Profiler, self).start()
 
+    def stop(self):
+        running = self.is_running()
+        try:
+            return super(Profiler, self).stop()
+        finally:
+            if running:
+                self._cpu_time_stopped = time.clock()
+                self._wall_time_stopped = time.time()
+
     def frame_stack(self, frame):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
@@ -71,8 +81,12 @@ class Profiler(Runnable):
     def result(self):
         """Gets the frozen statistics to serialize by Pickle."""
         try:
-            cpu_time = max(0, time.clock() - self._cpu_time_started)
-            wall_time = max(0, time.time() - self._wall_time_started)
+            cpu_time, wall_time = self._cpu_time_stopped, self._wall_time_stopped
+            if cpu_time is None:
+                # still running.
+                cpu_time, wall_time = time.clock(), time.time()
+            cpu_time = max(0, cpu_time - self._cpu_time_started)
+            wall_time = max(0, wall_time - self._wall_time_started)
         except AttributeError:
             cpu_time = wall_time = 0.0
         return self.stats, cpu_time, wall_time
-- 
2.43.0


From e1e8f98f4e8f0ed9d5daaaf998489a59c2838ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 09/52] fix: the overhead of a return event is not subtracted
 twice

The time of a return was taken before the lookup of the parent statistics
but the lookup was already counted as overhead.
---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a34006..1c95df1 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -109,7 +109,7 @@ class TracingProfiler(Profiler):
             time = time2 - self.overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            time = time2 - self.overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self.overhead += time3 - time2
-- 
2.43.0


From 5acc74153a6e172d14b7c12d9443ecd3b2da0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 10/52] fix: the overhead of a thread or greenlet is subtracted
 from its own time

The clock of ThreadTimer and GreenletTimer is of the current thread or
greenlet, but the overhead spent in one was subtracted from the times
measured by another.
---
 profiling/tracing/__init__.py | 13 +++++++++----
 profiling/tracing/timers.py   | 14 ++++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 1c95df1..e7263e6 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -80,6 +80,8 @@ class TracingProfiler(Profiler):
         base.__init__(base_frame, base_code, ignored_frames, ignored_codes)
         self.timer = timer
         self._times_entered = {}
+        #: The overhead per context of the timer.
+        self._overheads = {}
 
     def _profile(self, frame, event, arg):
         """The callback function to register by :func:`sys.setprofile`."""
@@ -89,6 +91,7 @@ class TracingProfiler(Profiler):
         if self.is_ignored(frame):
             # it is inlined into the caller.
             return
+        context = self.timer.context()
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if frames:
@@ -104,15 +107,16 @@ class TracingProfiler(Profiler):
         #     frame_key = id(arg)
         # record
         time2 = self.timer()
-        self.overhead += time2 - time1
+        overhead = self._overheads.get(context, 0.0) + time2 - time1
         if event == 'call':
-            time = time2 - self.overhead
+            time = time2 - overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time2 - self.overhead
+            time = time2 - overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
-        self.overhead += time3 - time2
+        self._overheads[context] = overhead + time3 - time2
+        self.overhead += time3 - time1
 
     def record_entering(self, time, code, frame_key, parent_stats):
         """Entered to a function call."""
@@ -144,6 +148,7 @@ class TracingProfiler(Profiler):
         with deferral() as defer:
             self._times_entered.clear()
             self.overhead = 0.0
+            self._overheads.clear()
             self._stopped = False
             defer(setattr, self, '_stopped', True)
             sys.setprofile(self._profile)
diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index a61396a..d39353e 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -11,6 +11,8 @@ from __future__ import absolute_import
 
 import time
 
+import six.moves._thread as _thread
+
 from profiling.utils import lazy_import, Runnable, thread_clock
 
 
@@ -26,6 +28,12 @@ class Timer(Runnable):
     def __call__(self):
         return self.clock()
 
+    def context(self):
+        """Identifies the context the clock currently measures.  The base timer
+        measures all contexts together.
+        """
+        return None
+
     def run(self, profiler):
         yield
 
@@ -56,6 +64,9 @@ class ContextualTimer(Timer):
         paused_at, __ = self._contextual_times.get(context, (0, 0))
         self._contextual_times[context] = (paused_at, self.clock())
 
+    def context(self):
+        return self.detect_context()
+
     def detect_context(self):
         raise NotImplementedError('detect_context() should be implemented')
 
@@ -72,6 +83,9 @@ class ThreadTimer(Timer):
     def __call__(self):
         return thread_clock()
 
+    def context(self):
+        return _thread.get_ident()
+
 
 class GreenletTimer(ContextualTimer):
     """A timer to get CPU time per greenlet."""
-- 
2.43.0


From 364f0acb81333db8a42787d2ec298ada2f5e06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 11/52] fix: a thread is not sampled late for a finished one
 with its identifier

The time of the previous sample was kept by the thread identifier, which a
later thread may get.  Now it is kept by the thread itself.
---
 profiling/sampling/samplers.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index ef7ce7b..62bde3b 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -15,8 +15,6 @@ import sys
 import threading
 import weakref
 
-import six.moves._thread as _thread
-
 from profiling.utils import deferral, Runnable, thread_clock
 
 
@@ -82,8 +80,8 @@ class TracingSampler(Sampler):
 
     def __init__(self, *args, **kwargs):
         super(TracingSampler, self).__init__(*args, **kwargs)
-        self.sampled_times = {}
-        self.counter = 0
+        #: Keeps when each thread was sampled last, as long as it lives.
+        self._sampled = threading.local()
         #: Whether the session ended.  Threads which started during the session
         #: still call :meth:`_profile`.
         self._stopped = False
@@ -92,24 +90,10 @@ class TracingSampler(Sampler):
         if self._stopped:
             return
         t = thread_clock()
-        thread_id = _thread.get_ident()
-        sampled_at = self.sampled_times.get(thread_id, 0)
-        if t < sampled_at:
-            # a new thread got the identifier of a dead thread.
-            sampled_at = self.sampled_times[thread_id] = 0
-        if t - sampled_at < self.interval:
+        if t - getattr(self._sampled, 'at', 0) < self.interval:
             return
-        self.sampled_times[thread_id] = t
+        self._sampled.at = t
         profiler.sample(frame)
-        self.counter += 1
-        if self.counter % 10000 == 0:
-            self._clear_for_dead_threads()
-
-    def _clear_for_dead_threads(self):
-        alive = sys._current_frames()
-        for thread_id in list(self.sampled_times):
-            if thread_id not in alive:
-                self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
-- 
2.43.0


From ea5087b5c67b07ced4c60d589417788a7a745d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 12/52] fix: equal functions in different files have separate
 statistics

Code objects are compared without their file name, so copies of a function in
several files were recorded as one.
---
 profiling/stats.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index d7e067b..a4cdaaa 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -195,6 +195,13 @@ class Statistics(with_metaclass(StatisticsMeta)):
                 ''.format(class_name, name_string, hits_string, time_string))
 
 
+def child_key(code):
+    """Makes the key of the statistics of the given code.  The code objects of
+    equal functions in different files are equal.
+    """
+    return (code, getattr(code, 'co_filename', None))
+
+
 class RecordingStatistics(Statistics):
     """Recordig statistics measures execution time of a code."""
 
@@ -238,19 +245,19 @@ class RecordingStatistics(Statistics):
         return list(itervalues(self._children))
 
     def get_child(self, code):
-        return self._children[code]
+        return self._children[child_key(code)]
 
     def add_child(self, code, stats):
-        self._children[code] = stats
+        self._children[child_key(code)] = stats
 
     def remove_child(self, code):
-        del self._children[code]
+        del self._children[child_key(code)]
 
     def discard_child(self, code):
-        self._children.pop(code, None)
+        self._children.pop(child_key(code), None)
 
     def ensure_child(self, code, adding_stat_class=None):
-        stats = self._children.get(code)
+        stats = self._children.get(child_key(code))
         stat_class = adding_stat_class or type(self)
         if stats is None:
             stats = stat_class(code)
@@ -275,7 +282,7 @@ class RecordingStatistics(Statistics):
         return len(self._children)
 
     def __contains__(self, code):
-        return code in self._children
+        return child_key(code) in self._children
 
 
 class VoidRecordingStatistics(RecordingStatistics):
-- 
2.43.0


From 37c495cd0979158bf1b0962335149d8b5e06bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:01 +0000
Subject: [PATCH 13/52] fix: statistics without a name or module can be sorted,
 and any key inverted

---
 profiling/sortkeys.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..ccbdd13 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -15,6 +15,19 @@ __all__ = ['by_name', 'by_module', 'by_deep_hits', 'by_own_hits',
            'by_own_time_per_call']
 
 
+class Reversed(object):
+    """Compares inversely.  Unlike negation it is possible for any values."""
+
+    def __init__(self, value):
+        self.value = value
+
+    def __eq__(self, other):
+        return self.value == other.value
+
+    def __lt__(self, other):
+        return other.value < self.value
+
+
 class SortKey(object):
 
     def __init__(self, func):
@@ -26,17 +39,17 @@ class SortKey(object):
 
     def __invert__(self):
         cls = type(self)
-        return cls(lambda stat: -self.func(stat))
+        return cls(lambda stat: Reversed(self.func(stat)))
 
 
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 5acf7ed953de2e18b80054e312112edc92469baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 14/52] fix: a greenlet timer forgets the greenlets of the
 former session

---
 profiling/tracing/timers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index d39353e..637acd4 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -102,6 +102,8 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
+        # forget what the greenlets did in the former session.
+        self._contextual_times.clear()
         self.greenlet.settrace(self._trace)
         yield
         self.greenlet.settrace(None)
-- 
2.43.0


From e1e6d6ef4f3be7f34276c17a035f7057a7b60852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 15/52] fix: resuming a context that is not paused does not
 lose its time

---
 profiling/tracing/timers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index 637acd4..4ec7f60 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -61,8 +61,9 @@ class ContextualTimer(Timer):
     def resume(self, context=None):
         if context is None:
             context = self.detect_context()
-        paused_at, __ = self._contextual_times.get(context, (0, 0))
-        self._contextual_times[context] = (paused_at, self.clock())
+        paused_at, resumed_at = self._contextual_times.get(context, (0, 0))
+        if resumed_at is None:  # paused
+            self._contextual_times[context] = (paused_at, self.clock())
 
     def context(self):
         return self.detect_context()
-- 
2.43.0


From 3ffd2e32e609d0640c7b34de2a9eaf17fe21c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 16/52] fix: a wrapped profiler is dumped and viewed as the
 profiler it wraps

---
 profiling/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index ac84276..f576db0 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -136,7 +136,7 @@ class Profiler(Runnable):
 class ProfilerWrapper(Profiler):
 
     for attr in ['table_class', 'stats', 'top_frame', 'top_code', 'result',
-                 'is_running']:
+                 'is_running', 'dump', 'make_viewer']:
         f = lambda self, attr=attr: getattr(self.profiler, attr)
         locals()[attr] = property(f)
         del f
-- 
2.43.0


From 63d48aa63a3f543231343a1ade375b2372150baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 17/52] fix: the times of a result do not grow after a failed
 start

---
 profiling/profiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index f576db0..0603d85 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -52,7 +52,13 @@ class Profiler(Runnable):
         self._wall_time_started = time.time()
         self._cpu_time_stopped = self._wall_time_stopped = None
         self.stats.clear()
-        return super(Profiler, self).start()
+        try:
+            return super(Profiler, self).start()
+        finally:
+            if not self.is_running():
+                # failed: the session ended as it started.
+                self._cpu_time_stopped = self._cpu_time_started
+                self._wall_time_stopped = self._wall_time_started
 
     def stop(self):
         running = self.is_running()
-- 
2.43.0


From f317465d8e2a9a9367b8048344e8ff90b0ab1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 18/52] fix: a failure of a profiler controlled in background
 is told to who asked for

---
 profiling/remote/background.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..b4a3907 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -25,6 +25,9 @@ class BackgroundProfiler(ProfilerWrapper):
 
     signum = signal.SIGUSR2
 
+    #: The exception which was raised by the profiler in the main thread.
+    _error = None
+
     def __init__(self, profiler, signum=None):
         super(BackgroundProfiler, self).__init__(profiler)
         if signum is not None:
@@ -45,12 +48,20 @@ class BackgroundProfiler(ProfilerWrapper):
 
     def _send_signal(self):
         self.event.clear()
+        self._error = None
         os.kill(os.getpid(), self.signum)
         self.event.wait()
+        if self._error is not None:
+            raise self._error
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        except Exception as exc:
+            # it is not the main thread who asked.
+            self._error = exc
+        finally:
+            self.event.set()
-- 
2.43.0


From 8dfd06d68c26ac5da05a9dc6426b6b00a4cdbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 19/52] fix: messages are received completely from non-blocking
 sockets

---
 profiling/remote/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..cc92841 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -20,6 +20,7 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
+from select import select as wait_sockets  # not profiling.remote.select
 import socket
 import struct
 
@@ -68,10 +69,21 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
-    return data
+    chunks = []
+    while size > 0:
+        try:
+            chunk = sock.recv(size, socket.MSG_WAITALL)
+        except socket.error as exc:
+            if exc.errno not in (EAGAIN, EWOULDBLOCK):
+                raise
+            # the rest didn't arrive yet.
+            wait_sockets([sock], (), ())
+            continue
+        if not chunk:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        chunks.append(chunk)
+        size -= len(chunk)
+    return b''.join(chunks)
 
 
 def recv_msg(sock):
-- 
2.43.0


From aa6d7b5789002bc753f0988f9161d90e7eff0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 20/52] fix: a client that is lost while it is greeted is
 disconnected

---
 profiling/remote/__init__.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index cc92841..5f88e7a 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EAGAIN, EBADF, ECONNRESET, EPIPE, EWOULDBLOCK
+from errno import EAGAIN, ECONNRESET, EPIPE, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -219,23 +219,21 @@ class ProfilingServer(object):
         self.clients.add(client)
         self._log_connected(client)
         self._start_watching(client)
-        self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
-                      pickle_protocol=0)
         profiler = self.profiler
         while True:
             try:
                 profiler = profiler.profiler
             except AttributeError:
                 break
-        self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            try:
+        try:
+            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
+                          pickle_protocol=0)
+            self.send_msg(client, PROFILER, type(profiler))
+            if self._latest_result_data is not None:
                 self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
+        except socket.error:
+            self.disconnected(client)
+            return
         if len(self.clients) == 1:
             self._start_profiling()
 
-- 
2.43.0


From c323813f6ecea34d364c4f7b9b62ffac26c8baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 21/52] fix: a client that a result cannot be sent to is
 disconnected

---
 profiling/remote/__init__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 5f88e7a..87710fe 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EAGAIN, ECONNRESET, EPIPE, EWOULDBLOCK
+from errno import EAGAIN, ECONNRESET, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -195,17 +195,16 @@ class ProfilingServer(object):
                             pickle_protocol=self.pickle_protocol)
             self._latest_result_data = data
             # broadcast.
-            closed_clients = []
-            for client in self.clients:
+            for client in list(self.clients):
+                # clients may come and go while the data is being sent.
+                if client not in self.clients:
+                    continue
                 try:
                     self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
+                except socket.error:
+                    # the client is lost, it may have got a part of the data.
+                    self.disconnected(client)
             del data
-            # handle disconnections.
-            for client in closed_clients:
-                self.disconnected(client)
         self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
-- 
2.43.0


From ff1917cb3a1aba3f6da3a0752156ecaa2f811880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 22/52] fix: a result is not sent into the greeting of a client

---
 profiling/remote/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 87710fe..ae768ff 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -146,6 +146,8 @@ class ProfilingServer(object):
         self.log = log
         self.pickle_protocol = pickle_protocol
         self.clients = set()
+        #: The clients which are still being greeted.
+        self._greeting = set()
 
     @abstract('Implement serve_forever() to run a server synchronously.')
     def serve_forever(self):
@@ -195,7 +197,7 @@ class ProfilingServer(object):
                             pickle_protocol=self.pickle_protocol)
             self._latest_result_data = data
             # broadcast.
-            for client in list(self.clients):
+            for client in self.clients - self._greeting:
                 # clients may come and go while the data is being sent.
                 if client not in self.clients:
                     continue
@@ -216,6 +218,7 @@ class ProfilingServer(object):
     def connected(self, client):
         """Call this method when a client connected."""
         self.clients.add(client)
+        self._greeting.add(client)
         self._log_connected(client)
         self._start_watching(client)
         profiler = self.profiler
@@ -228,11 +231,16 @@ class ProfilingServer(object):
             self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
                           pickle_protocol=0)
             self.send_msg(client, PROFILER, type(profiler))
-            if self._latest_result_data is not None:
-                self._send(client, self._latest_result_data)
+            # there may be a later result when the latest one has been sent.
+            data = None
+            while data is not self._latest_result_data:
+                data = self._latest_result_data
+                self._send(client, data)
         except socket.error:
             self.disconnected(client)
             return
+        finally:
+            self._greeting.discard(client)
         if len(self.clients) == 1:
             self._start_profiling()
 
-- 
2.43.0


From 39f2f3771c2d6b783817b35317f71318893f9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 23/52] fix: a single profiling loop runs as long as there are
 clients

---
 profiling/remote/__init__.py | 53 ++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ae768ff..1c3d1b6 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -139,6 +139,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether the profiling loop was started and goes on.
+    _profiling = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -184,29 +187,32 @@ class ProfilingServer(object):
 
         """
         self._log_profiler_started()
-        while self.clients:
-            try:
-                self.profiler.start()
-            except RuntimeError:
-                pass
-            # should sleep.
-            yield
-            self.profiler.stop()
-            result = self.profiler.result()
-            data = pack_msg(RESULT, result,
-                            pickle_protocol=self.pickle_protocol)
-            self._latest_result_data = data
-            # broadcast.
-            for client in self.clients - self._greeting:
-                # clients may come and go while the data is being sent.
-                if client not in self.clients:
-                    continue
+        try:
+            while self.clients:
                 try:
-                    self._send(client, data)
-                except socket.error:
-                    # the client is lost, it may have got a part of the data.
-                    self.disconnected(client)
-            del data
+                    self.profiler.start()
+                except RuntimeError:
+                    pass
+                # should sleep.
+                yield
+                self.profiler.stop()
+                result = self.profiler.result()
+                data = pack_msg(RESULT, result,
+                                pickle_protocol=self.pickle_protocol)
+                self._latest_result_data = data
+                # broadcast.
+                for client in self.clients - self._greeting:
+                    # clients may come and go while the data is being sent.
+                    if client not in self.clients:
+                        continue
+                    try:
+                        self._send(client, data)
+                    except socket.error:
+                        # the client is lost, it may have got a part of the data.
+                        self.disconnected(client)
+                del data
+        finally:
+            self._profiling = False
         self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
@@ -241,7 +247,8 @@ class ProfilingServer(object):
             return
         finally:
             self._greeting.discard(client)
-        if len(self.clients) == 1:
+        if self.clients and not self._profiling:
+            self._profiling = True
             self._start_profiling()
 
     def disconnected(self, client):
-- 
2.43.0


From 956205d9f807267e04378f1e0ecc1963f4883de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 24/52] fix: a profiler that cannot be started does not end the
 server

---
 profiling/remote/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 1c3d1b6..2ea907d 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -195,6 +195,9 @@ class ProfilingServer(object):
                     pass
                 # should sleep.
                 yield
+                if not self.profiler.is_running():
+                    # another profiler was running.
+                    continue
                 self.profiler.stop()
                 result = self.profiler.result()
                 data = pack_msg(RESULT, result,
-- 
2.43.0


From ed447f8206c3c2a2935dadaee95110a680057e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 25/52] fix: no error of a client's connection ends the select
 server

---
 profiling/remote/select.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 9f7e4b7..017d79f 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET, EINTR, ENOTCONN
+from errno import EINTR, ENOTCONN
 import select
 import socket
 import time
@@ -101,12 +101,16 @@ class SelectProfilingServer(ProfilingServer):
         for sock in self.select_sockets(timeout=timeout):
             if sock is self.listener:
                 listener = sock
-                sock, addr = listener.accept()
+                try:
+                    sock, addr = listener.accept()
+                except socket.error:
+                    # the client already gave up.
+                    continue
                 self.connected(sock)
             else:
                 try:
                     sock.recv(1)
-                except socket.error as exc:
-                    if exc.errno != ECONNRESET:
-                        raise
+                except socket.error:
+                    # the connection is broken, in whatever way.
+                    pass
                 self.disconnected(sock)
-- 
2.43.0


From 1a5c00fc9de44955af3a7769563bd68efdedf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 26/52] fix: the select server sends messages of any size
 completely

---
 profiling/remote/select.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 017d79f..0c8c2d2 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -26,6 +26,9 @@ __all__ = ['SelectProfilingServer']
 
 class SelectProfilingServer(ProfilingServer):
 
+    #: How many seconds the server waits for a client to receive a message.
+    send_timeout = 5
+
     def __init__(self, listener, *args, **kwargs):
         super(SelectProfilingServer, self).__init__(*args, **kwargs)
         self.listener = listener
@@ -35,7 +38,9 @@ class SelectProfilingServer(ProfilingServer):
             self.dispatch_sockets()
 
     def _send(self, sock, data):
-        sock.sendall(data, socket.MSG_DONTWAIT)
+        # a result may not fit in the buffer of the socket.
+        sock.settimeout(self.send_timeout)
+        sock.sendall(data)
 
     def _close(self, sock):
         sock.close()
-- 
2.43.0


From ee395dbbf172a8ecee7fb31c742ffaee62051c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 27/52] fix: a client that does not receive does not hold the
 gevent server

---
 profiling/remote/gevent.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index aba98ee..0e9cfae 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -44,6 +44,9 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
 
     """
 
+    #: How many seconds the server waits for a client to receive a message.
+    send_timeout = 5
+
     def __init__(self, listener, profiler=None, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL, **server_kwargs):
         StreamServer.__init__(self, listener, **server_kwargs)
@@ -53,7 +56,9 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         self.profiling_greenlet = None
 
     def _send(self, sock, data):
-        sock.sendall(data)
+        # a client which doesn't receive must not hold the others.
+        with gevent.Timeout(self.send_timeout, socket.timeout('timed out')):
+            sock.sendall(data)
 
     def _close(self, sock):
         sock.close()
-- 
2.43.0


From 037fbd1d0eae16966a614e47cb04b4388e8d33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 28/52] fix: the asyncio server can be imported and drops lost
 clients

---
 profiling/remote/asyncio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..319d1e4 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -60,12 +60,12 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        asyncio.ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        disconnected = lambda x: self.disconnected(client)
+        asyncio.ensure_future(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
     def profile_periodically(self):
-- 
2.43.0


From 8a26c4accbd9da602f1a4dd7245a5ce737b8e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 29/52] fix: the client retries whatever an attempt to connect
 fails with

---
 profiling/remote/client.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..ac9330a 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -10,7 +10,7 @@
 from __future__ import absolute_import
 
 from datetime import datetime
-from errno import ECONNREFUSED, EINPROGRESS, ENOENT
+from errno import ECONNREFUSED, EINPROGRESS
 import socket
 
 from valuedispatch import valuedispatch
@@ -88,20 +88,12 @@ class FailoverProfilingClient(ProfilingClient):
         base.__init__(viewer, event_loop, None, title, protocol)
 
     def connect(self):
-        while True:
-            errno = self.sock.connect_ex(self.addr)
-            if not errno:
-                # connected immediately.
-                break
-            elif errno == EINPROGRESS:
-                # will be connected.
-                break
-            elif errno == ENOENT:
-                # no such socket file.
-                self.create_connection(self.failover_interval)
-                return
-            else:
-                raise ValueError('Unexpected socket errno: %d' % errno)
+        errno = self.sock.connect_ex(self.addr)
+        if errno and errno != EINPROGRESS:
+            # not connectable for now: no such socket file, nobody listens...
+            self.sock.close()
+            self.create_connection(self.failover_interval)
+            return
         self.event_loop.watch_file(self.sock.fileno(), self.handle)
 
     def disconnect(self, errno):
-- 
2.43.0


From 0423836c22f36f3dd993fdba776e36a790db2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 30/52] fix: a table of another kind shows the current result

---
 profiling/viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..dc8d404 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -802,6 +802,8 @@ class StatisticsViewer(object):
             return
         self.table = table_class(self)
         self.widget.original_widget = self.table
+        # the new table shows what the previous one showed.
+        self.update_result()
 
     def set_result(self, stats, cpu_time=0.0, wall_time=0.0,
                    title=None, at=None):
-- 
2.43.0


From c7a4672466ce0e4bf638741c0dc78c2e57041855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 31/52] fix: a new table of a paused viewer shows the times of
 its result

---
 profiling/viewer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index dc8d404..f826b92 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -630,8 +630,6 @@ class StatisticsTable(urwid.WidgetWrap):
             widget = self.thead.base_widget.contents[x][0]
             text, __ = widget.get_text()
             widget.set_text((attr, text))
-        if self.viewer.paused:
-            return
         # Update header.
         stats = self.get_stats()
         if stats is None:
-- 
2.43.0


From ec7d89e7bf2b74fd8ba04bcbcb6e1cc0a45cd5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 32/52] fix: the viewer shows when the result was made

---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index f826b92..0c257c3 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -635,7 +635,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From 6e3b67d2e6fbf3bf7f26e96fe1151d8aac75f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 33/52] fix: the sorting column is marked before there is a
 result

---
 profiling/viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 0c257c3..18a0cd9 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -607,6 +607,8 @@ class StatisticsTable(urwid.WidgetWrap):
     def refresh(self):
         stats = self.get_stats()
         if stats is None:
+            # nothing is listed but the sorting column is marked already.
+            self.update_frame()
             return
         if self.layout == FLAT:
             stats = FlatFrozenStatistics.flatten(stats)
-- 
2.43.0


From 69422e40b81e70a4c8dedce55ebc80d8f3373b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 34/52] fix: folding at the root does not hide the whole table

---
 profiling/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 18a0cd9..4821310 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -343,6 +343,10 @@ class RootStatisticsWidget(StatisticsWidget):
     def get_mark(self):
         raise TypeError('Statistics widget has no mark')
 
+    def keypress(self, size, key):
+        # all functions would disappear if the root was folded.
+        return key
+
     def update(self):
         pass
 
-- 
2.43.0


From ab5dfe0891e2d36d82f1c8c9c4a0331055df6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 35/52] fix: times of 10 to 59 seconds do not lose their first
 digit in the table

---
 profiling/tracing/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index e7263e6..79ce27f 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -34,11 +34,11 @@ class TracingStatisticsTable(StatisticsTable):
     columns = [
         ('FUNCTION', 'left', ('weight', 1), sortkeys.by_function),
         ('CALLS', 'right', (6,), sortkeys.by_own_hits),
-        ('OWN', 'right', (6,), sortkeys.by_own_time),
-        ('/CALL', 'right', (6,), sortkeys.by_own_time_per_call),
+        ('OWN', 'right', (7,), sortkeys.by_own_time),
+        ('/CALL', 'right', (7,), sortkeys.by_own_time_per_call),
         ('%', 'left', (4,), None),
-        ('DEEP', 'right', (6,), sortkeys.by_deep_time),
-        ('/CALL', 'right', (6,), sortkeys.by_deep_time_per_call),
+        ('DEEP', 'right', (7,), sortkeys.by_deep_time),
+        ('/CALL', 'right', (7,), sortkeys.by_deep_time_per_call),
         ('%', 'left', (4,), None),
     ]
     order = sortkeys.by_deep_time
-- 
2.43.0


From 46c153cd6a9d8592dbf890389f1ef8372f1df16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 36/52] fix: a profiled script can import the modules beside it

---
 profiling/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..aa5d600 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -498,6 +498,9 @@ def profiler_arguments(f):
             except IndexError:
                 raise click.UsageError('Script not specified')
             script = Script().convert(script_filename, None, None)
+            # a script imports the modules beside it.
+            script_dir = os.path.dirname(os.path.realpath(script_filename))
+            sys.path.insert(0, script_dir)
         kwargs.update(script=script, argv=argv)
         return f(**kwargs)
     return wrapped
-- 
2.43.0


From 7a614f63fddfdd10f3dd012001a15e7245bb560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 37/52] fix: the profiled program is the __main__ module

---
 profiling/__main__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index aa5d600..75d2747 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -31,6 +31,7 @@ import sys
 import threading
 import time
 import traceback
+from types import ModuleType
 
 import click
 from click_default_group import DefaultGroup
@@ -228,6 +229,11 @@ def spawn(mode, func, *args, **kwargs):
 spawn.modes = ['threading', 'gevent', 'eventlet']
 
 
+#: The main module before the profiled program takes its place.  It would be
+#: cleared by Python 2 if nobody referred to it.
+original_main = sys.modules.get('__main__')
+
+
 #: Just returns the first argument.
 noop = lambda x: x
 
@@ -501,6 +507,12 @@ def profiler_arguments(f):
             # a script imports the modules beside it.
             script_dir = os.path.dirname(os.path.realpath(script_filename))
             sys.path.insert(0, script_dir)
+        # the program is the main module, to itself and to pickle.
+        filename, code, globals_ = script
+        main_module = ModuleType('__main__')
+        main_module.__dict__.update(globals_)
+        sys.modules['__main__'] = main_module
+        script = (filename, code, main_module.__dict__)
         kwargs.update(script=script, argv=argv)
         return f(**kwargs)
     return wrapped
-- 
2.43.0


From 34181abc3e4e6eef4fe61c665d5d688facb771f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 38/52] fix: the dump of a program that changes the directory
 is written where it was asked for

---
 profiling/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 75d2747..4728968 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -554,6 +554,8 @@ def __profile__(filename, code, globals_, profiler_factory,
                 mono=False):
     frame = sys._getframe()
     profiler = profiler_factory(base_frame=frame, base_code=code)
+    # the program may change the directory.
+    dump_path = dump_filename and os.path.abspath(dump_filename)
     profiler.start()
     try:
         exec_(code, globals_)
@@ -571,7 +573,7 @@ def __profile__(filename, code, globals_, profiler_factory,
         except KeyboardInterrupt:
             pass
     else:
-        profiler.dump(dump_filename, pickle_protocol)
+        profiler.dump(dump_path, pickle_protocol)
 
         click.echo('To view statistics:')
         click.echo('  $ profiling view ', nl=False)
-- 
2.43.0


From 362da9b351055c3966ecdcda8cc8ceacdc4785a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 39/52] fix: timeit-profile repeats all lines of the statement,
 whatever it is

---
 profiling/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 4728968..feedd24 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -778,8 +778,8 @@ def timeit_profile(stmt, number, repeat, setup,
                 break
         dummy_profiler.stop()
         del dummy_profiler
-    code = compile('for _ in range(%d): %s' % (number, stmt),
-                   'STATEMENT', 'exec')
+    lines = ['for _ in range(%d):' % number] + stmt.split('\n')
+    code = compile('\n    '.join(lines), 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
                 pickle_protocol=pickle_protocol, dump_filename=dump_filename,
                 mono=mono)
-- 
2.43.0


From 34632b65d2011d695bc85f86315e3cf1f578fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 40/52] fix: a configured value of a wrong type is a usage
 error

---
 profiling/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index feedd24..c0f4e84 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -142,6 +142,9 @@ def config_default(option, default=None, type=None, section=cli.name):
             return get_option(config, section, option)
         except (NoOptionError, NoSectionError):
             return default
+        except ValueError as exc:
+            raise click.UsageError('Invalid value for "%s" in configuration: '
+                                   '%s' % (option, exc))
     return f
 
 
-- 
2.43.0


From 9e80986b6debd22d4446885255d0014626367056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 41/52] fix: an unknown profiler in the configuration is a
 usage error

---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index c0f4e84..5c259d1 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -471,6 +471,8 @@ def profiler_options(f):
     @wraps(f)
     def wrapped(import_profiler_class, timer_class, sampler_class,
                 sampling_interval, **kwargs):
+        if import_profiler_class is None:
+            raise click.UsageError('Unknown profiler in configuration')
         profiler_class = import_profiler_class()
         assert issubclass(profiler_class, Profiler)
         if issubclass(profiler_class, TracingProfiler):
-- 
2.43.0


From 426526509a182f382908190c3c26a731c2b64b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 42/52] fix: the update interval may be configured as precisely
 as given by the option

---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 5c259d1..615c604 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -534,7 +534,7 @@ onetime_profiler_options = Params([
 live_profiler_options = Params([
     click.option(
         '-i', '--interval', type=float,
-        default=config_default('interval', remote.INTERVAL),
+        default=config_default('interval', remote.INTERVAL, type=float),
         help='How often update result. (default: %.0f sec)' % remote.INTERVAL),
     click.option(
         '--spawn', type=click.Choice(spawn.modes),
-- 
2.43.0


From c1268a268f1f57f30c9dc2c2de5cc8f1d27aed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 43/52] fix: a pickle protocol that is not supported is
 rejected before the program runs

---
 profiling/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 615c604..42adb4e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -465,7 +465,8 @@ def profiler_options(f):
         help='How often sample. (default: %.3f cpu sec)' % samplers.INTERVAL)
     # etc
     @click.option(
-        '--pickle-protocol', type=int,
+        '--pickle-protocol',
+        type=click.IntRange(max=pickle.HIGHEST_PROTOCOL),
         default=config_default('pickle-protocol', remote.PICKLE_PROTOCOL),
         help='Pickle protocol to dump result.')
     @wraps(f)
-- 
2.43.0


From 34e8a5ef64cbfd06512198f013e21341b260373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 44/52] fix: invalid endpoints, sources and signals are usage
 errors

---
 profiling/__main__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 42adb4e..7e76972 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -351,9 +351,11 @@ class Endpoint(click.ParamType):
     """A parameter type for IP endpoint."""
 
     def convert(self, value, param, ctx):
-        host, port = value.split(':')
-        port = int(port)
-        return (host, port)
+        try:
+            host, port = value.split(':')
+            return (host, int(port))
+        except ValueError:
+            self.fail('HOST:PORT required.')
 
     def get_metavar(self, param):
         return 'HOST:PORT'
@@ -370,7 +372,7 @@ class ViewerSource(click.ParamType):
         except OSError:
             try:
                 src_name = Endpoint().convert(value, param, ctx)
-            except ValueError:
+            except click.BadParameter:
                 pass
             else:
                 src_type = 'tcp'
@@ -381,7 +383,7 @@ class ViewerSource(click.ParamType):
             elif S_ISREG(mode):
                 src_type = 'dump'
         if not src_type:
-            raise ValueError('Dump file or socket address required.')
+            self.fail('Dump file or socket address required.')
         return (src_type, src_name)
 
     def get_metavar(self, param):
@@ -403,6 +405,8 @@ class SignalNumber(click.ParamType):
         if isinstance(value, int):
             return value
         elif value.isdigit():
+            if not 0 < int(value) < signal.NSIG:
+                self.fail('Unknown signal %s' % value)
             return int(value)
         signame = value.upper()
         if not signame.startswith('SIG'):
-- 
2.43.0


From f80cff976dac3315a1382f3896b4530d3f3c7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 45/52] fix: the calls of start and stop are no part of the
 profile of a program

---
 profiling/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 7e76972..69f249d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -577,6 +577,9 @@ def __profile__(filename, code, globals_, profiler_factory,
         profiler.stop()
     # discard this __profile__ function from the result.
     profiler.stats.discard_child(frame.f_code)
+    # neither does the program call the profiler.
+    profiler.exclude_code(profiler.start.__code__)
+    profiler.exclude_code(profiler.stop.__code__)
     if dump_filename is None:
         try:
             profiler.run_viewer(get_title(filename), mono=mono)
-- 
2.43.0


From 225034c538e0d1055f786d5a8cc730614740bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 46/52] fix: a module run as a script imports modules of the
 directory it was started in

---
 profiling/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 69f249d..999fa4d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -309,6 +309,9 @@ class Script(click.File):
 class Module(click.ParamType):
 
     def convert(self, value, param, ctx):
+        # python -m finds modules in the directory where it started, even if
+        # the program changes the directory.
+        sys.path.insert(0, os.getcwd())
         # inspired by @htch's fork.
         # https://github.com/htch/profiling/commit/4a4eb6e
         try:
-- 
2.43.0


From b5ef3f5692823f6181c6bff6571efc5d4a6edd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 47/52] fix: a sample that takes longer than the interval is
 not sampled itself

---
 profiling/sampling/samplers.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 62bde3b..a02ffd0 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -44,8 +44,19 @@ class ItimerSampler(Sampler):
 
     """
 
+    #: Whether a sample is being taken.
+    _sampling = False
+
     def handle_signal(self, profiler, signum, frame):
-        profiler.sample(frame)
+        code = ItimerSampler.handle_signal.__code__
+        if self._sampling or getattr(frame, 'f_code', None) is code:
+            # it took longer than the interval: that is not the program.
+            return
+        self._sampling = True
+        try:
+            profiler.sample(frame)
+        finally:
+            self._sampling = False
 
     def run(self, profiler):
         weak_profiler = weakref.proxy(profiler)
-- 
2.43.0


From 9d1d096094a9a77aabd8013bf66705a204f45124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 48/52] fix: the end of a killed program is noticed by its live
 viewer

---
 profiling/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 999fa4d..61cad1c 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -638,6 +638,9 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     if pid:
         # parent
         os.close(stderr_w_fd)
+        # the end of the child closes the connection only if nobody else keeps
+        # its end.
+        child_sock.close()
         viewer, loop = make_viewer(mono)
         # loop.screen._term_output_file = open(os.devnull, 'w')
         title = get_title(filename)
@@ -669,6 +672,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     else:
         # child
         os.close(stderr_r_fd)
+        parent_sock.close()
         # mute stdin, stdout.
         devnull = os.open(os.devnull, os.O_RDWR)
         for f in [sys.stdin, sys.stdout]:
-- 
2.43.0


From 36f4e199ce66677c5c9fcb8c321e074918c7eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 49/52] fix: a live program does not hang or lose what it
 writes to stderr

---
 profiling/__main__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 61cad1c..f8073eb 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -641,6 +641,12 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         # the end of the child closes the connection only if nobody else keeps
         # its end.
         child_sock.close()
+        # the child would wait if nobody read its stderr.
+        child_stderr = []
+        def read_stderr():
+            with os.fdopen(stderr_r_fd, 'rb') as f:
+                child_stderr.append(f.read())
+        stderr_thread = spawn_thread(read_stderr)
         viewer, loop = make_viewer(mono)
         # loop.screen._term_output_file = open(os.devnull, 'w')
         title = get_title(filename)
@@ -662,11 +668,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
             os.kill(pid, signal.SIGTERM)
         exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
-        with os.fdopen(stderr_r_fd, 'r') as f:
-            child_stderr = f.read()
-        if child_stderr:
-            sys.stdout.flush()
-            sys.stderr.write(child_stderr)
+        stderr_thread.join()
+        sys.stdout.flush()
+        for data in child_stderr:
+            # it is not always text.
+            getattr(sys.stderr, 'buffer', sys.stderr).write(data)
         # exit with exit code of child.
         sys.exit(exit_code)
     else:
-- 
2.43.0


From f576a72e54286a66d210999634c46423a0d40384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 50/52] fix: live-profile does not succeed when the program was
 killed

---
 profiling/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index f8073eb..17c4755 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -666,7 +666,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         w_pid, status = os.waitpid(pid, os.WNOHANG)
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
-        exit_code = os.WEXITSTATUS(status)
+        if os.WIFSIGNALED(status):
+            # like a shell.
+            exit_code = 128 + os.WTERMSIG(status)
+        else:
+            exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
         stderr_thread.join()
         sys.stdout.flush()
-- 
2.43.0


From d96bea34695c9de38d34c4589425db1e85d0d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:11 +0000
Subject: [PATCH 51/52] fix: a call event interrupted by a new session is no
 part of it

---
 profiling/tracing/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 79ce27f..7cfbe2f 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -92,6 +92,7 @@ class TracingProfiler(Profiler):
             # it is inlined into the caller.
             return
         context = self.timer.context()
+        overheads = self._overheads
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if frames:
@@ -107,7 +108,10 @@ class TracingProfiler(Profiler):
         #     frame_key = id(arg)
         # record
         time2 = self.timer()
-        overhead = self._overheads.get(context, 0.0) + time2 - time1
+        if self._stopped or overheads is not self._overheads:
+            # a signal handler ended the session in the meantime.
+            return
+        overhead = overheads.get(context, 0.0) + time2 - time1
         if event == 'call':
             time = time2 - overhead
             self.record_entering(time, code, frame_key, parent_stats)
@@ -115,8 +119,9 @@ class TracingProfiler(Profiler):
             time = time2 - overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
-        self._overheads[context] = overhead + time3 - time2
-        self.overhead += time3 - time1
+        overheads[context] = overhead + time3 - time2
+        if overheads is self._overheads:
+            self.overhead += time3 - time1
 
     def record_entering(self, time, code, frame_key, parent_stats):
         """Entered to a function call."""
@@ -148,7 +153,7 @@ class TracingProfiler(Profiler):
         with deferral() as defer:
             self._times_entered.clear()
             self.overhead = 0.0
-            self._overheads.clear()
+            self._overheads = {}
             self._stopped = False
             defer(setattr, self, '_stopped', True)
             sys.setprofile(self._profile)
-- 
2.43.0


From 4ca8f7ce200b058ea297056749cb6559cabb5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 52/52] fix: a program run by -m has its own names and module
 spec

---
 profiling/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 17c4755..bf4c276 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -323,14 +323,15 @@ class Module(click.ParamType):
             mod_name, mod_spec, code = detail
         except ValueError:
             mod_name, loader, code, filename = detail
+            mod_spec = None
         else:
             loader = mod_spec.loader
             filename = mod_spec.origin
         # follow runpy's behavior.
         pkg_name = mod_name.rpartition('.')[0]
-        globals_ = sys.modules['__main__'].__dict__.copy()
-        globals_.update(__name__='__main__', __file__=filename,
-                        __loader__=loader, __package__=pkg_name)
+        globals_ = {'__file__': filename, '__name__': '__main__',
+                    '__package__': pkg_name, '__doc__': None,
+                    '__loader__': loader, '__spec__': mod_spec}
         return (filename, code, globals_)
 
     def get_metavar(self, param):
-- 
2.43.0

