From ff741e4a132b7aa23daee2554e9b0bdaa814b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 01/76] fix: Heap negative indices between -3 and -9 (and -1 on
 an empty heap)

---
 big/heap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 187902e..b89e1e0 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -139,14 +139,15 @@ class Heap:
             # fall through! it'll work!
         elif item == 0:
             return self._queue[0]
-        elif item == -1:
+        elif item == -1 and self._queue:
             return max(self._queue)
         elif 0 < item < 10:
             l = nsmallest(item + 1, self._queue)
             return l[item]
         elif -10 < item < 0:
-            l = nlargest((-item) + 1, self._queue)
-            return l[item]
+            # nlargest returns the largest... IN REVERSE ORDER.
+            l = nlargest(-item, self._queue)
+            return l[-item - 1]
         l = sorted(self._queue)
         # __getitem__ on a list handles ints and slices!
         return l[item]
-- 
2.43.0


From 395892eb4804ad55f979340b18aabc123aefc558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 02/76] fix: repr of an empty Heap raised IndexError

---
 big/heap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index b89e1e0..f96bd3d 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -59,7 +59,8 @@ class Heap:
 
     def __repr__(self):
         id_string = hex(id(self))[-6:]
-        return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0]}>"
+        first = f" first={self._queue[0]}" if self._queue else ""
+        return f"<Heap {id_string} len={len(self._queue)}{first}>"
 
     def append(self, o):
         heappush(self._queue, o)
-- 
2.43.0


From 9acecd340275526de9d868d409478ffeb44b6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 03/76] fix: a Heap iterator is itself iterable

---
 big/heap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index f96bd3d..8d0b32b 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -159,6 +159,9 @@ class Heap:
             self._copy = heap._queue.copy()
             self._version = heap._version
 
+        def __iter__(self):
+            return self
+
         def __next__(self):
             if self._version != self._heap._version:
                 raise RuntimeError("heap modified during iteration")
-- 
2.43.0


From 20d7d20140d9bdf3d999f66ce70a2f82e5e29d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 04/76] fix: PushbackIterator lost the values of false
 iterators and swallowed exceptions

---
 big/itertools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/big/itertools.py b/big/itertools.py
index e385373..29a8c8c 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -20,7 +20,7 @@ class PushbackIterator:
     __slots__ = ('i', 'stack')
 
     def __init__(self, iterable=None):
-        if (iterable != None) and (not hasattr(iterable, '__next__')):
+        if (iterable is not None) and (not hasattr(iterable, '__next__')):
             iterable = iter(iterable)
         self.i = iterable
         self.stack = []
@@ -41,10 +41,10 @@ class PushbackIterator:
     def __next__(self):
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
-            except:
+            except StopIteration:
                 self.i = None
         raise StopIteration
 
@@ -57,7 +57,7 @@ class PushbackIterator:
         """
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -67,7 +67,7 @@ class PushbackIterator:
     def __bool__(self):
         if self.stack:
             return True
-        if self.i:
+        if self.i is not None:
             try:
                 o = next(self.i)
                 self.push(o)
-- 
2.43.0


From 797fae905c0632d316f00061620729cee1f2dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 05/76] fix: ThreadSafeRegulator could miss a wake between
 releasing the lock and sleeping

---
 big/scheduler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 7bf6617..68605cc 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -173,11 +173,19 @@ class ThreadSafeRegulator(Regulator):
         return time.monotonic()
 
     def wake(self):
+        # Leave the event set, for any thread that has already
+        # fetched sleep but hasn't started waiting yet.
+        # (Called while holding the lock.)
         self.event.set()
-        self.event.clear()
+        self.event = threading.Event()
 
-    def sleep(self, interval):
-        self.event.wait(interval)
+    @property
+    def sleep(self):
+        # The Scheduler fetches sleep while holding the lock,
+        # then calls it after releasing the lock.  The caller
+        # waits on the event that was current when it fetched
+        # sleep, so it can't miss a wake in between.
+        return self.event.wait
 
 
 DEFAULT_PRIORITY = 100
-- 
2.43.0


From a9f504e6a708047208b550317ac10e092c3c829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 06/76] fix: TopologicalSorter done() with a bad or repeated
 node left the view inconsistent

---
 big/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 8b1dc7d..1a2892c 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -214,10 +214,9 @@ class TopologicalSorter:
                 if node not in self._yielded:
                     raise ValueError(f"node {node!r} was not passed out")
                 # print("CALL _mark_node_done", node, self.graph.nodes[node])
+                self._done.add(node)
+                self._yielded.remove(node)
                 self._mark_node_done(node, self.graph.nodes[node][1])
-            nodes = set(nodes)
-            self._done |= nodes
-            self._yielded -= nodes
 
         #
         # These functions are internal only.
-- 
2.43.0


From af848ce7e2af42b94d97c87b8e4c5e72b2ab02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 07/76] fix: a node depending on an already done node never
 became ready

---
 big/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/graph.py b/big/graph.py
index 1a2892c..6c60931 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -290,7 +290,8 @@ class TopologicalSorter:
                 self._conflicts[node].add(successor)
                 self._reverse_conflicts[successor].add(node)
 
-            if successor not in self._done:
+            # a predecessor that's already done doesn't hold up its successor.
+            if not ((node in self._done) or (successor in self._done)):
                 self._predecessors[successor] += 1
                 if self._predecessors[successor] == 1:
                     try:
-- 
2.43.0


From 797b42f3b82131ff4c75a93ccdbbe820ac424907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 08/76] fix: a copy of a TopologicalSorter shared its views
 with the original, and missed cycles

---
 big/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 6c60931..06d622f 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -565,10 +565,12 @@ class TopologicalSorter:
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
 
-        clone._default_view = self._default_view.copy()
-        clone._default_view.graph = clone
-        clone._stock_view = self._stock_view.copy()
-        clone._stock_view.graph = clone
+        clone.dirty = self.dirty
+
+        # replace the views created by the constructor.
+        clone.views.clear()
+        clone._default_view = clone.View(clone, original=self._default_view)
+        clone._stock_view = clone.View(clone, original=self._stock_view)
 
         return clone
 
-- 
2.43.0


From 3259306d12e00a374106d8e4b0382f5b569b0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 09/76] fix: an exception in on_exit or an observer left
 StateManager in transition forever

---
 big/state.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/big/state.py b/big/state.py
index 6bed7dc..27c2158 100644
--- a/big/state.py
+++ b/big/state.py
@@ -227,16 +227,21 @@ class StateManager:
         self.__next = state
         # as of this moment we are "transitioning" to a new state.
 
-        if self.on_exit:
-            on_exit = getattr(self.__state, self.on_exit, None)
-            if on_exit is not None:
-                on_exit()
-        if self.observers:
-            if self.observers != self._observers_copy:
-                self._observers_copy = list(self.observers)
-                self._observers_tuple = tuple(self.observers)
-            for o in self._observers_tuple:
-                o(self)
+        try:
+            if self.on_exit:
+                on_exit = getattr(self.__state, self.on_exit, None)
+                if on_exit is not None:
+                    on_exit()
+            if self.observers:
+                if self.observers != self._observers_copy:
+                    self._observers_copy = list(self.observers)
+                    self._observers_tuple = tuple(self.observers)
+                for o in self._observers_tuple:
+                    o(self)
+        except BaseException:
+            # the transition failed, we're still in the old state.
+            self.__next = None
+            raise
 
         self.__state = state
         self.__next = None
-- 
2.43.0


From 9bbf2471b135c55c71f9a8b421c012e493fcf061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 10/76] fix: StateManager called a replaced observer if the new
 one compared equal to it

---
 big/state.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/big/state.py b/big/state.py
index 27c2158..1fcf025 100644
--- a/big/state.py
+++ b/big/state.py
@@ -232,12 +232,9 @@ class StateManager:
                 on_exit = getattr(self.__state, self.on_exit, None)
                 if on_exit is not None:
                     on_exit()
-            if self.observers:
-                if self.observers != self._observers_copy:
-                    self._observers_copy = list(self.observers)
-                    self._observers_tuple = tuple(self.observers)
-                for o in self._observers_tuple:
-                    o(self)
+            # iterate over a copy, observers may modify the list.
+            for o in tuple(self.observers):
+                o(self)
         except BaseException:
             # the transition failed, we're still in the old state.
             self.__next = None
@@ -282,8 +279,6 @@ class StateManager:
         self.on_exit = on_exit
 
         self.observers = []
-        self._observers_copy = []
-        self._observers_tuple = ()
         self.state = state
 
     def __repr__(self):
-- 
2.43.0


From 9c4e2e5b0475a769e0bcd069c30cb2bebba00681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 11/76] fix: access to a bound inner class through an alias or
 super() replaced the cached class

---
 big/boundinnerclass.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 3540750..5e044b8 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -62,6 +62,13 @@ __all__ = ["BoundInnerClass", "UnboundInnerClass"]
 
 import weakref
 
+def _lookup(outer, name):
+    # finds "name" in outer's class, without invoking any descriptor
+    for cls in type(outer).__mro__:
+        if name in cls.__dict__:
+            return cls.__dict__[name]
+    return None
+
 class _Worker(object):
     def __init__(self, cls):
         self.cls = cls
@@ -93,6 +100,20 @@ class _Worker(object):
 
         name = self.cls.__name__
 
+        # We cache the bound class under our own name--unless that name
+        # means something else in outer's class.  (Somebody's calling
+        # super().Inner, and the subclass overrode Inner.)  In that case
+        # we mustn't clobber the real "Inner".
+        key = name
+        if _lookup(outer, name) is not self:
+            key = self.cls.__module__ + "." + self.cls.__qualname__
+
+        # If we were accessed through an alias, or through super(),
+        # the cached copy didn't preempt calling us.  Use it now.
+        cached = outer.__dict__.get(key)
+        if isinstance(cached, type) and (cached.__bases__[:1] == (self.cls,)):
+            return cached
+
         wrapper_bases = [self.cls]
 
         # Iterate over cls's bases, and look in outer,
@@ -135,7 +156,7 @@ class _Worker(object):
         # Cache the bound instance in outer's dict.
         # This also means that future requests for us won't call our
         # __get__ again, it'll automatically use the cached copy.
-        outer.__dict__[name] = Wrapper
+        outer.__dict__[key] = Wrapper
         return Wrapper
 
 
-- 
2.43.0


From bc843c6b3085023c810191c89b3df1bd4ea70121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 12/76] fix: an attribute of the outer named like a base of an
 inner class became a base of it

---
 big/boundinnerclass.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 5e044b8..b0996b2 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -134,9 +134,13 @@ class _Worker(object):
             #
             # If the name is the same as our own name, there's no way it's
             # a bound inner class we need to inherit from, so just skip it.
-            if base.__name__ != name:
+            #
+            # Likewise, an unrelated attribute of outer that merely has
+            # the same name as our base isn't something to inherit from.
+            worker = _lookup(outer, base.__name__)
+            if (base.__name__ != name) and isinstance(worker, _Worker) and (worker.cls is base):
                 bound_inner_base = getattr(outer, base.__name__, None)
-                if bound_inner_base:
+                if bound_inner_base is not None:
                     bases = getattr(bound_inner_base, "__bases__", (None,))
                     # The unbound class is always the first base of
                     # the bound inner class.
-- 
2.43.0


From 0e7a008562c3beed18b9c75f853dbf197084cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 13/76] fix: Version raised AssertionError for upper-case
 release levels

---
 big/version.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/version.py b/big/version.py
index 6138dc7..dd4be21 100644
--- a/big/version.py
+++ b/big/version.py
@@ -210,6 +210,7 @@ class Version:
             release_level = get('pre_l')
             if release_level is None:
                 release_level = 'final'
+            release_level = release_level.lower()
             release_level = _release_level_normalize.get(release_level, release_level)
             # don't need to validate this, it's constrained by the regex
             # if release_level not in _release_level_allowed_values:
-- 
2.43.0


From 7a742862715ab45f3a8865b5f42f68bb70e7dd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 14/76] fix: Version ignored .post and .dev without a number

---
 big/version.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/version.py b/big/version.py
index dd4be21..38b27e8 100644
--- a/big/version.py
+++ b/big/version.py
@@ -231,6 +231,9 @@ class Version:
             elif post_n2 is not None:
                 assert post_l is not None
                 post = post_n2
+            elif post_l is not None:
+                # "Implicit post release number"
+                post = 0
             else:
                 post = None
 
@@ -240,6 +243,9 @@ class Version:
             dev = get('dev_n')
             if dev is not None:
                 assert dev_l is not None
+            elif dev_l is not None:
+                # "Implicit development release number"
+                dev = 0
             dev = int(dev) if dev is not None else None
 
             local = original_local = get('local')
-- 
2.43.0


From bf388fc7b1afb7d352495c2a093940ddfc6c292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 15/76] fix: equal Versions could have different hashes

---
 big/version.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/big/version.py b/big/version.py
index 38b27e8..b77f0ca 100644
--- a/big/version.py
+++ b/big/version.py
@@ -359,15 +359,7 @@ class Version:
 
 
     def __hash__(self):
-        return (
-            hash(self._epoch)
-            ^ hash(self._release)
-            ^ hash(self._release_level)
-            ^ hash(self._serial)
-            ^ hash(self._post)
-            ^ hash(self._dev)
-            ^ hash(self._local)
-            )
+        return hash(self._tuple)
 
     @property
     def epoch(self):
-- 
2.43.0


From d46d09c97307d8f837141b268de5c6aa1392b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 16/76] fix: Version(release=) kept trailing zeroes and
 accepted negative numbers

---
 big/version.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/big/version.py b/big/version.py
index b77f0ca..95ac634 100644
--- a/big/version.py
+++ b/big/version.py
@@ -122,8 +122,8 @@ class Version:
             elif not (isinstance(epoch, int) and (epoch >= 0)):
                 raise ValueError(f"epoch must be non-negative int or None, not {epoch!r}")
 
-            if not (isinstance(release, tuple) and release and all(isinstance(element, int) for element in release)):
-                raise ValueError(f"release must be a tuple of length 1+ containing only ints, not {release!r}")
+            if not (isinstance(release, tuple) and release and all(isinstance(element, int) and (element >= 0) for element in release)):
+                raise ValueError(f"release must be a tuple of length 1+ containing only non-negative ints, not {release!r}")
 
             original_release_level = release_level
             if release_level is None:
@@ -200,13 +200,6 @@ class Version:
             epoch = int(epoch) if epoch is not None else None
 
             release = [int(_) for _ in get('release').split('.')]
-            # if S is a release string, and T is S+".0",
-            # S and T represent the same version.
-            # so, let's clip off all trailing zero elements on release.
-            while (len(release) > 1) and (not release[-1]):
-                release.pop()
-            release = tuple(release)
-
             release_level = get('pre_l')
             if release_level is None:
                 release_level = 'final'
@@ -252,6 +245,14 @@ class Version:
             if local is not None:
                 local = tuple(local.replace('-', '.').replace('_', '.').split('.'))
 
+        # if S is a release string, and T is S+".0",
+        # S and T represent the same version.
+        # so, let's clip off all trailing zero elements on release.
+        release = list(release)
+        while (len(release) > 1) and (not release[-1]):
+            release.pop()
+        release = tuple(release)
+
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
-- 
2.43.0


From 104544d49e03ed66433b2d3ce97eb27bfff017cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 17/76] fix: Version accepted a serial for a final release,
 then could not be printed

---
 big/version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/version.py b/big/version.py
index 95ac634..0b362dd 100644
--- a/big/version.py
+++ b/big/version.py
@@ -135,6 +135,8 @@ class Version:
                 serial = 0
             elif not (isinstance(serial, int) and (serial >= 0)):
                 raise ValueError(f"serial must be non-negative int or None, not {serial!r}")
+            if serial and (release_level == 'final'):
+                raise ValueError(f"serial must be 0 or None for a final release, not {serial!r}")
 
             if not ((post is None) or (isinstance(post, int) and (post >= 0))):
                 raise ValueError(f"post must be non-negative int or None, not {post!r}")
-- 
2.43.0


From 09b734db03265f2d859afb30a53cf1c5c5bd764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 18/76] fix: str(Version) left out the number of a prerelease
 numbered 0

---
 big/version.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/big/version.py b/big/version.py
index 0b362dd..d1d528e 100644
--- a/big/version.py
+++ b/big/version.py
@@ -335,8 +335,7 @@ class Version:
             assert not self._serial
         else:
             append(release_level)
-            if self._serial:
-                append(str(self._serial))
+            append(str(self._serial or 0))
 
         if self._post is not None:
             append(f".post{self._post}")
-- 
2.43.0


From 07fcf07074bff5f48d6845880b80b6b62a2b78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 19/76] fix: Version didn't normalize local version segments

---
 big/version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/version.py b/big/version.py
index d1d528e..9de2d42 100644
--- a/big/version.py
+++ b/big/version.py
@@ -258,6 +258,8 @@ class Version:
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
+            # normalize: leading zeroes are stripped, letters are lowercase.
+            local = tuple(str(int(element)) if element.isdigit() else element.lower() for element in local)
             compare_local = tuple((2, int(element)) if element.isdigit() else (1, element) for element in local)
         else:
             local = None
-- 
2.43.0


From 3a1d825d5ea20e7f331bcdaacf75616dac79584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 20/76] fix: Version accepted non-ASCII letters and a trailing
 newline in local

---
 big/version.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/version.py b/big/version.py
index 9de2d42..3997039 100644
--- a/big/version.py
+++ b/big/version.py
@@ -87,11 +87,11 @@ VERSION_PATTERN = r"^\s*" + r"""
     (?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
 """ + r"\s*$"
 
-_re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).match
+_re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE | re.ASCII).match
 
 del VERSION_PATTERN
 
-_re_is_valid_local_segment = re.compile("^[A-Za-z0-9]+$").match
+_re_is_valid_local_segment = re.compile(r"^[A-Za-z0-9]+\Z").match
 
 
 
@@ -172,7 +172,7 @@ class Version:
             if not isinstance(s, str):
                 raise ValueError("you must specify either a version string or explicit keyword arguments")
 
-            match = _re_parse_version(s)
+            match = _re_parse_version(s.strip())
             if not match:
                 raise ValueError(f"invalid version initializer {s!r}") from None
 
-- 
2.43.0


From 2554d44f129f54a22894ddc77995f0d525714fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:52 +0000
Subject: [PATCH 21/76] fix: re_partition and re_rpartition split at the first
 equal text, not at the match

---
 big/text.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/big/text.py b/big/text.py
index 58c5e8d..2d3a1d2 100644
--- a/big/text.py
+++ b/big/text.py
@@ -441,8 +441,7 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         match = pattern.search(s)
         if not match:
             return (s, None, empty)
-        before, separator, after = s.partition(match.group(0))
-        return (before, match, after)
+        return (s[:match.start()], match, s[match.end():])
 
     if count == 0:
         return (s,)
@@ -453,17 +452,18 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
     result = []
     extend = result.extend
     matches_iterator = pattern.finditer(s)
+    start = 0
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            before, separator, s = s.partition(match.group(0))
-            extend((before, match))
+            extend((s[start:match.start()], match))
+            start = match.end()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[start:])
     return tuple(result) + extension
 
 
@@ -787,8 +787,7 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         matches_iterator = reversed_re_finditer(pattern, s, flags)
         try:
             match = next(matches_iterator)
-            before, separator, after = s.rpartition(match.group(0))
-            return (before, match, after)
+            return (s[:match.start()], match, s[match.end():])
         except StopIteration:
             return (empty, None, s)
 
@@ -801,17 +800,18 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
     result = []
     extend = result.extend
     matches_iterator = reversed_re_finditer(pattern, s, flags)
+    end = len(s)
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            s, separator, after = s.rpartition(match.group(0))
-            extend((after, match))
+            extend((s[match.end():end], match))
+            end = match.start()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[:end])
     result.reverse()
     return extension + tuple(result)
 
-- 
2.43.0


From 896bafedfe25858ca1834a2f4b1e4ff8b4dc3b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 22/76] fix: multistrip lost text before a trailing newline,
 and could take exponential time

---
 big/text.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 2d3a1d2..9a2855e 100644
--- a/big/text.py
+++ b/big/text.py
@@ -896,7 +896,6 @@ def multistrip(s, separators, left=True, right=True):
     if is_bytes:
         s_type = bytes
         head = b'^'
-        tail = b'$'
 
         if isinstance(separators, str):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -911,7 +910,6 @@ def multistrip(s, separators, left=True, right=True):
     else:
         s_type = str
         head = '^'
-        tail = '$'
 
         if isinstance(separators, bytes):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -948,9 +946,13 @@ def multistrip(s, separators, left=True, right=True):
             start = left_match.end(0)
             s = s[start:]
     if right:
-        right_match = re.search(pattern + tail, s)
+        # match backwards, so we always strip the longest separator
+        # (and never have to backtrack).
+        reversed_separators = tuple(_multisplit_reversed(o) for o in separators)
+        pattern = __separators_to_re(reversed_separators, is_bytes, separate=False, keep=False)
+        right_match = re.match(head + pattern, _multisplit_reversed(s))
         if right_match:
-            end = right_match.start(0)
+            end = len(s) - right_match.end(0)
             s = s[:end]
     return s
 
-- 
2.43.0


From 60c788affd5ae1c99945442c446028abc71bb44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 23/76] fix: multisplit exhausted separators passed in as an
 iterator

---
 big/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/text.py b/big/text.py
index 9a2855e..b1f9cef 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1252,6 +1252,10 @@ def multisplit(s, separators=None, *,
     if check_separators:
         if not hasattr(separators, '__iter__'):
             raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
+        # if separators is an iterator, we only get to examine it once.
+        separators = tuple(separators)
+        if not separators:
+            raise ValueError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
-- 
2.43.0


From 6a5dea283f9b35e7d7fe524549593bf690eea39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 24/76] fix: multisplit accepted empty separators and split
 inside the text

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index b1f9cef..4b345e4 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1259,6 +1259,8 @@ def multisplit(s, separators=None, *,
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
+            if not o:
+                raise ValueError(f"separators must be either None or an iterable of non-empty objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
 
     separators_to_re_keep = keep
 
-- 
2.43.0


From 2331cc945caf7b1f111d39ba38e1c1d79062e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:22 +0000
Subject: [PATCH 25/76] fix: multisplit with maxsplit None and PROGRESSIVE, or
 maxsplit less than -1

---
 big/text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 4b345e4..642a3f9 100644
--- a/big/text.py
+++ b/big/text.py
@@ -972,9 +972,7 @@ PROGRESSIVE = "PROGRESSIVE"
 _export_name(PROGRESSIVE)
 
 def multisplit(s, separators, keep, maxsplit, reverse, separate, strip, empty, is_bytes, separators_to_re_keep):
-    if maxsplit == None:
-        maxsplit = -1
-    elif maxsplit == 0:
+    if maxsplit == 0:
         if keep == ALTERNATING:
             yield s
         elif keep == AS_PAIRS:
@@ -1264,6 +1262,9 @@ def multisplit(s, separators=None, *,
 
     separators_to_re_keep = keep
 
+    if (maxsplit is None) or (maxsplit < 0):
+        maxsplit = -1
+
     if strip:
         if strip == PROGRESSIVE:
             if maxsplit == -1:
-- 
2.43.0


From 3fbcbe53bc328b5a722dc154a6a467b4b2e6e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 26/76] fix: reversed_re_finditer missed matches overlapping
 more than one forward match

---
 big/text.py | 268 +++++++++++++---------------------------------------
 1 file changed, 65 insertions(+), 203 deletions(-)

diff --git a/big/text.py b/big/text.py
index 642a3f9..7f430c6 100644
--- a/big/text.py
+++ b/big/text.py
@@ -481,222 +481,84 @@ def reversed_re_finditer(pattern, string):
     # regex.finditer(flags=regex.REVERSE), yields four matches:
     #    'efg', 'd', 'c', 'ab'
     #
-    # so what we do is: we ask re.finditer for all the forward
-    # matches.  then, for every match it found, we check every
-    # overlapping character to see if there's a different match
-    # there that we might prefer.  if we prefer one of those,
-    # we yield that--but we keep around the other matches,
-    # because one of those (or a truncated version of it) might
-    # also work.
-
-
-    # matches and overlapping_matches are lists of 3-tuples of:
-    #    (end_pos, -start_pos, match)
-    # If we sort one of those lists, the last element will be
-    # the correct last match in "reverse" order.  See
-    #    https://en.wikipedia.org/wiki/Schwartzian_transform
-    #
-    # matches contains the list of matches we got directly from
-    # re.finditer(), reversed.  since this was found using re in
-    # "forward" order, we need to check every match in this list
-    # for potential overlapping matches.
-    matches = [(match.end(), -match.start(), match) for match in pattern.finditer(string)]
-    if not matches:
-        # print(f"no matches at all! exiting immediately.")
-        return
-
-    # Does this pattern match zero-length strings?
-    zero_length_match = pattern.match(string, 0, 0)
-    if zero_length_match:
-        # This pattern matches zero-length strings.
-        # Since the rules are a little different for
-        # zero-length strings when in reverse mode,
-        # we need to doctor the match results a little.
-
-        # These seem to be the rules:
-        #
-        # In forwards mode, we consider two matches to overlap
-        # if they start at the same position, or if they have
-        # any characters in common.  There's an implicit
-        # zero-length string at the beginning and end of every
-        # string, so if the pattern matches against a zero-length
-        # string at the start or end, and there isn't another
-        # (longer) match that starts at that position, we'll
-        # yield these matches too.  Since only a zero-length
-        # match can start at position len(string), we'll always
-        # yield a zero-length match starting and ending at
-        # position length(string) if the pattern matches there.
-        #
-        # In reverse mode, we consider two matches to overlap
-        # if they end at the same position, or if they have any
-        # characters in common with any other match.  There's an
-        # implicit zero-length string at the beginning and end of
-        # every string, so if the pattern matches a zero-length
-        # string at the start or end, and there isn't another
-        # (longer) match that ends at that position, we'll yield
-        # these matches too.  Since only a zero-length match can
-        # end at position 0, we'll always yield a zero-length
-        # match starting and ending at position 0 if the pattern
-        # matches there.
-
-        # We need to ensure that, for every non-zero-length match,
-        # if the pattern matches a zero-length string starting at
-        # the same position, we have that zero-length match in
-        # matches too.
-        #
-        # So specifically we're going to do this:
-        #
-        # for every match m in matches:
-        #   if m has nonzero length,
-        #     and the pattern matches a zero-length string
-        #       starting at m,
-        #     ensure that the zero-length match is also in matches.
-        #   elif m has zero length,
-        #     if we've already ensured that a zero-length
-        #     match starting at m.start() is in matches,
-        #     discard m.
-
-        zeroes = set()
-        new_matches = []
-        append = new_matches.append
-        last_start = -1
-        for t in matches:
-            match = t[2]
-            start, end = match.span()
+    # so what we do is: we find the match starting at *every*
+    # position in the string, including the ones that overlap
+    # each other.  then we repeatedly yield the match that ends
+    # the furthest to the right (and, of those, the longest).
+    # a match that overlaps the match we yielded last is no longer
+    # viable as it is, but there might be a *different* match
+    # starting at that position, one that ends before the last
+    # match started; "endpos" finds that one.
+
+    # heap is a heap of 3-tuples of:
+    #    (-end_pos, start_pos, match)
+    heap = []
+
+    # The start positions of the zero-length matches
+    # that are, or have been, in the heap.
+    zeroes = set()
 
+    # cache some method lookups
+    search = pattern.search
+    finditer = pattern.finditer
+
+    def push(start, endpos):
+        # Pushes the matches starting at start and ending at or before
+        # endpos onto the heap.  There can be two of these:
+        # if the pattern prefers a zero-length match, finditer yields
+        # that, and next the longer match starting there (if any).
+        for match in finditer(string, start, endpos):
+            if match.start() != start:
+                break
+            end = match.end()
+            if start != end:
+                heapq.heappush(heap, (-end, start, match))
+                break
             if start not in zeroes:
-                if (start == end):
-                    append(t)
-                    zeroes.add(start)
-                    continue
-
-                zero_match = pattern.match(string, start, start)
-                if zero_match:
-                    t_zero_length = (start, -start, zero_match)
-                    append(t_zero_length)
                 zeroes.add(start)
-            append(t)
-        # del zeroes
-        matches = new_matches
-
-    matches.sort()
-
-    # overlapping_matches is a list of the possibly-viable
-    # overlapping matches we found from checking a match
-    # we got from "matches".
-    overlapping_matches = []
+                heapq.heappush(heap, (-end, start, match))
 
-    result = []
-    match = None
+    length = len(string)
+    start = 0
+    while start <= length:
+        match = search(string, start)
+        if not match:
+            break
+        start, end = match.span()
+        if start != end:
+            heapq.heappush(heap, (-end, start, match))
+        else:
+            push(start, length)
+        start += 1
 
-    # We truncate each match at the start
-    # of the previously yielded match.
-    #
     # The initial value allows the initial match
     # to extend all the way to the end of the string.
-    previous_match_start = len(string)
-
-    # cache some method lookups
-    pattern_match = pattern.match
-    append = overlapping_matches.append
+    previous_match_start = length
 
-    while True:
-        if overlapping_matches:
-            # overlapping_matches contains the overlapping
-            # matches found *last* time around, before we
-            # yielded the most recent match.
-            #
-            # The thing is, some of these matches might overlap that match.
-            # But we only yield *non*-overlapping matches.  So we need to
-            # filter the matches in overlapping_matches accordingly.
-
-            truncated_matches = []
-            # (overlapping_matches will be set to truncated_matches in a few lines)
-            append = truncated_matches.append
-
-            for t in overlapping_matches:
-                end, negated_start, match = t
-                start = -negated_start
-                if start > previous_match_start:
-                    # This match starts *after* the previous match started.
-                    # All matches starting at this position are no longer
-                    # viable.  Throw away the match.
-                    continue
-                if end <= previous_match_start:
-                    # This match ends *before* the previous match started.
-                    # In other words, this match is still 100% viable.
-                    # Keep it, we don't need to change it at all.
-                    append(t)
-                    continue
+    while heap:
+        negated_end, start, match = heapq.heappop(heap)
+        end = -negated_end
 
-                # This match starts before the previous match started,
-                # but ends after the previous match start.
-                # In other words, it overlaps the previous match.
-                #
-                # So this match is itself no longer viable.  But!
-                # There might be a *different* match starting at this
-                # position in the string.  So we do a fresh re.match here,
-                # stopping at the start of the previously yielded match.
-                # (That's the third parameter, "endpos".)
-
-                match = pattern_match(string, start, previous_match_start)
-                if match:
-                    append((match.end(), -start, match))
-
-            overlapping_matches = truncated_matches
-
-        if (not overlapping_matches) and matches:
-            # We don't currently have any pre-screened
-            # overlapping matches we can use.
-            #
-            # But we *do* have a match (or matches) found in forwards mode.
-            # Grab the next one that's still viable.
-
-            scan_for_overlapping_matches = False
-            while matches:
-                t = matches.pop()
-                end, negated_start, match = t
-                start = -negated_start
-                if end <= previous_match_start:
-                    assert start <= previous_match_start
-                    append(t)
-                    start += 1
-                    scan_for_overlapping_matches = True
-                    break
+        if start > previous_match_start:
+            # This match starts *after* the previous match started.
+            # It's no longer viable, throw it away.
+            continue
 
-            if scan_for_overlapping_matches:
-                # We scan every** position inside the match for an
-                # overlapping match.  All the matches we find go in
-                # overlapping_matches, then we sort it and yield
-                # the last one.
-                #
-                # ** We don't actually need to check the *first* position,
-                #    "start", because we already know what we'll find:
-                #    the match that we got from re.finditer() and
-                #    scanned for overlaps.
-                #
-                # As mentioned, the match we got from finditer
-                # is viable here, so add it to the list.
-
-                end = min(end, previous_match_start)
-                for pos in range(start, end):
-                    match = pattern_match(string, pos, previous_match_start)
-                    if match:
-                        # print(f"  found {match=}")
-                        append((match.end(), -pos, match))
-
-        if not overlapping_matches:
-            # matches and overlapping matches are both empty.
-            # We've exhausted the matches.  Stop iterating.
-            return
+        if end > previous_match_start:
+            # This match overlaps the previous match.
+            # But maybe there's a shorter one starting at the same position.
+            push(start, previous_match_start)
+            continue
 
-        # overlapping_matches is now guaranteed current and non-empty.
-        # We sort it so the rightmost match is last, and yield that.
-        overlapping_matches.sort()
-        match = overlapping_matches.pop()[2]
-        previous_match_start = match.start()
+        previous_match_start = start
         yield match
 
+        if start != end:
+            # If the pattern also matches a zero-length string at the
+            # same position, we yield that too (unless there's a longer
+            # match that ends here).
+            push(start, start)
+
 _reversed_re_finditer = reversed_re_finditer
 
 @_export
-- 
2.43.0


From aa196bbd0eb40dbbfb55e7c27ec86c1fdce023fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 27/76] fix: re_partition and re_rpartition could return an
 instance of a subclass of str or bytes

---
 big/text.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/text.py b/big/text.py
index 7f430c6..a2ae246 100644
--- a/big/text.py
+++ b/big/text.py
@@ -433,6 +433,9 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         empty = ''
         extension = (None, '')
 
+    # if s is an instance of a subclass, convert it to str or bytes
+    s = empty.join((s,))
+
     if not isinstance_re_pattern(pattern):
         pattern = re.compile(pattern, flags=flags)
 
@@ -644,6 +647,9 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         empty = ''
         extension = ('', None)
 
+    # if s is an instance of a subclass, convert it to str or bytes
+    s = empty.join((s,))
+
     # optimized fast path for the most frequent use case
     if count == 1:
         matches_iterator = reversed_re_finditer(pattern, s, flags)
-- 
2.43.0


From 3d8025d9cdab6112d0e3ad1b70c5ebfe9b2f6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 28/76] fix: multistrip accepted an empty iterator of
 separators

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index a2ae246..5ae1dda 100644
--- a/big/text.py
+++ b/big/text.py
@@ -797,6 +797,8 @@ def multistrip(s, separators, left=True, right=True):
             if not o:
                 raise ValueError("separators must be an iterable of non-empty objects the same type as s")
             s2.append(o)
+        if not s2:
+            raise ValueError("separators must be an iterable of non-empty objects the same type as s")
         separators = tuple(s2)
 
     # deliberately do this *after* checking types,
-- 
2.43.0


From 0bc2fd63089b46c020038a83f825ac90ee59ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 29/76] fix: multisplit and multipartition could return an
 instance of a subclass of str or bytes

---
 big/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/text.py b/big/text.py
index 5ae1dda..eeb1e9c 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1152,6 +1152,9 @@ def multisplit(s, separators=None, *,
             # this will make us exit the iterator early.
             maxsplit = 0
 
+    # if s is an instance of a subclass, convert it to str or bytes
+    s = empty.join((s,))
+
     return _multisplit(s, separators, keep, maxsplit, reverse, separate, strip, empty, is_bytes, separators_to_re_keep)
 
 
-- 
2.43.0


From 56e616cc4ef547d0bf8314e648d84b322e447ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:14 +0000
Subject: [PATCH 30/76] fix: split_quoted_strings missed the closing quote mark
 if a longer one started there, honored escapes outside quotes, and ignored
 them in multiline quotes

---
 big/text.py | 125 +++++++++++++++++++++++++---------------------------
 1 file changed, 60 insertions(+), 65 deletions(-)

diff --git a/big/text.py b/big/text.py
index eeb1e9c..a08507f 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1750,67 +1750,61 @@ _sqs_escape_str   =  '\\'
 _sqs_escape_bytes = b'\\'
 
 
-def split_quoted_strings(s, separators, all_quotes_set, quotes, multiline_quotes, empty, laden, state):
+def split_quoted_strings(s, patterns, multiline_quotes, empty, laden, state):
     """
     This is the generator function implementing the split_quoted_strings
     iterator.  The public split_quoted_strings analyzes its arguments,
     ensuring that they're valid (or raising an exception if they're not).
     If the inputs are valid, it calls this generator and returns the
     resulting iterator.
-    """
-    buffer = []
 
+    patterns maps the quote mark we're currently inside (or an empty
+    string) to a compiled regular expression.  That regular expression
+    matches everything that's special there.
+    """
+    # quote is the quote mark we're currently inside, if any.
+    # leading_quote is the same, except it's empty if we were
+    # already inside the quoted string when we started.
     quote = state
-    # print(f"    >> {state=}")
-    for pair in multisplit(s, separators, keep=AS_PAIRS, separate=True):
-        # print(f"    >> {pair}  -- {quote=}")
-        literal, separator = pair
-
-        if literal:
-            buffer.append(literal)
-        if not quote:
-            # not currently quoted
-            if separator not in all_quotes_set:
-                buffer.append(separator)
+    leading_quote = empty
+
+    # start is where the current segment starts,
+    # position is where we look for the next special thing.
+    start = position = 0
+
+    while True:
+        match = patterns[quote].search(s, position)
+        if match:
+            separator = match.group(0)
+            position = match.end()
+            if quote and (separator != quote):
+                # escaped
                 continue
-            if buffer:
-                yield (empty, empty.join(buffer), empty)
-                buffer.clear()
-            quote = separator
-            continue
-        # in quote
-        if separator != quote:
-            buffer.append(separator)
-            continue
-        # separator == quote
-        text = empty.join(buffer)
-        if quote or text:
-            if quote and text and (quote not in multiline_quotes):
-                # see treatise above
-                if (len(text.splitlines()) > 1) or (len( (text[-1:] + laden).splitlines()) > 1):
-                    raise SyntaxError("unterminated quoted string, {s!r}")
-            if state:
-                state = None
-                # print(f"    <<1 empty, {text=}, {quote=}")
-                yield (empty, text, quote)
-            else:
-                # print(f"    <<2 {quote=}, {text=}, {quote=}")
-                yield (quote, text, quote)
-        buffer.clear()
-        quote = empty
+            text = s[start:match.start()]
+        else:
+            separator = empty
+            text = s[start:]
 
-    if buffer:
-        text = empty.join(buffer)
-        if text or quote:
-            if quote and text and (quote not in multiline_quotes):
-                # see treatise above
-                if (len(text.splitlines()) > 1) or (len( (text[-1:] + laden).splitlines()) > 1):
-                    raise SyntaxError("unterminated quoted string, {s!r}")
-            if state:
-                state = None
-                quote = empty
-            # print(f"    <<3 {quote=}, {text=}, empty")
-            yield (quote, text, empty)
+        if quote and text and (quote not in multiline_quotes):
+            # see treatise above
+            if (len(text.splitlines()) > 1) or (len( (text[-1:] + laden).splitlines()) > 1):
+                raise SyntaxError(f"unterminated quoted string, {s!r}")
+
+        if not match:
+            break
+
+        if quote:
+            # separator == quote
+            yield (leading_quote, text, quote)
+            quote = leading_quote = empty
+        else:
+            if text:
+                yield (empty, text, empty)
+            quote = leading_quote = separator
+        start = position
+
+    if text or quote:
+        yield (leading_quote, text, empty)
 
 _split_quoted_strings = split_quoted_strings
 
@@ -1999,20 +1993,21 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
             s = ', '.join(repr(_) for _ in in_both_quotes_sets)
         raise ValueError(f"{s} appears in both quotes and multiline_quotes")
 
-    # separators is a list containing all quote marks,
-    separators = list(quotes_set)
-    separators.extend(multiline_quotes_set)
-
-    # and also all escaped quote marks.
-    if escape:
-        for first_character in {q[0:] for q in quotes}:
-            separators.append(escape + first_character)
-        separators.append(escape + escape)
-
-    # help multisplit work better--it memoizes the conversion to a regular expression
-    separators.sort()
-
-    return _split_quoted_strings(s, separators, all_quotes_set, quotes_set, multiline_quotes_set, empty, laden, state)
+    # outside a quoted string, every quote mark is special.
+    # inside a quoted string, only the same quote mark is special,
+    # and the escaped quote mark, and the escaped escape.
+    all_quotes = sorted(all_quotes_set)
+    patterns = {empty: _separators_to_re(tuple(all_quotes), is_bytes, separate=True)}
+    for q in all_quotes:
+        separators = [q]
+        if escape:
+            separators.append(escape + q)
+            separators.append(escape + escape)
+        patterns[q] = _separators_to_re(tuple(separators), is_bytes, separate=True)
+    # re memoizes the compiled regular expressions
+    patterns = {q: re.compile(pattern) for q, pattern in patterns.items()}
+
+    return _split_quoted_strings(s, patterns, multiline_quotes_set, empty, laden, state)
 
 
 @_export
-- 
2.43.0


From 2d0758faa0fb56955c38528c4e05d8f941e69cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 31/76] fix: split_quoted_strings failed for iterators of
 quotes, and didn't check escape if there are multiline quotes

---
 big/text.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index a08507f..bfbc492 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1905,7 +1905,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
             quotes = _sqs_quotes_bytes
         else:
             if isinstance(quotes, bytes):
-                quotes = tuple(_iterate_over_bytes(quotes))
+                quotes = _iterate_over_bytes(quotes)
+            quotes = tuple(quotes)
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -1915,13 +1916,14 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
             escape = _sqs_escape_bytes
         if multiline_quotes:
             if isinstance(multiline_quotes, bytes):
-                multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes))
+                multiline_quotes = _iterate_over_bytes(multiline_quotes)
+            multiline_quotes = tuple(multiline_quotes)
             for q in multiline_quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in multiline_quotes must match s (str or bytes), not {q!r}")
                 if not q:
                     raise ValueError("multiline_quotes cannot contain an empty string")
-        elif not isinstance(escape, s_type):
+        if not isinstance(escape, s_type):
             raise TypeError(f"escape must match s (str or bytes), not {escape!r}")
     else:
         s_type = str
@@ -1930,6 +1932,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_bytes, None):
             quotes = _sqs_quotes_str
         else:
+            quotes = tuple(quotes)
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -1938,12 +1941,13 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if escape in (_sqs_escape_bytes, None):
             escape = _sqs_escape_str
         if multiline_quotes:
+            multiline_quotes = tuple(multiline_quotes)
             for q in multiline_quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in multiline_quotes must match s (str or bytes), not {q!r}")
                 if not q:
                     raise ValueError("multiline_quotes cannot contain an empty string")
-        elif not isinstance(escape, s_type):
+        if not isinstance(escape, s_type):
             raise TypeError(f"escape must match s (str or bytes), not {escape!r}")
 
     quotes_set = set(quotes)
-- 
2.43.0


From 2c1fa59e8a4064641778e247ebe42ee45fb40627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 32/76] fix: split_delimiters repeated or misread text after a
 delimiter it ignored inside quotes

---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index bfbc492..2da3bf8 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2518,6 +2518,7 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
                 consumed += len(delimiter)
             elif action is _ACTION_FLUSH:
                 append(delimiter)
+                consumed += len(delimiter)
             elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                 # flush first character of delimiter, and resplit.
                 append(delimiter[0:1])
-- 
2.43.0


From 1642a434ba09b6f8ff5d5a309e9a8776ce1c06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 33/76] fix: split_delimiters preferred a close delimiter to a
 longer escape if a longer delimiter starts with both

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 2da3bf8..43d769b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2328,6 +2328,8 @@ def _delimiters_to_state_and_tokens(delimiters, is_bytes):
         delimiters_and_startswith_actions = [ (delimiter.close, truncate_to_s_type(delimiter.close)) ]
         if delimiter.escape:
             delimiters_and_startswith_actions.append((delimiter.escape, truncate_to_s_type(delimiter.escape)))
+            # longer delimiters take priority
+            delimiters_and_startswith_actions.sort(key=lambda t: -len(t[0]))
 
         for t in all_tokens:
             for s, startswith_action in delimiters_and_startswith_actions:
-- 
2.43.0


From ee285371210907c6885ad3fdcc10b6b0bc3cecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 34/76] fix: split_delimiters overlooked illegal newlines that
 are part of another delimiter

---
 big/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/text.py b/big/text.py
index 43d769b..71282ec 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2328,6 +2328,11 @@ def _delimiters_to_state_and_tokens(delimiters, is_bytes):
         delimiters_and_startswith_actions = [ (delimiter.close, truncate_to_s_type(delimiter.close)) ]
         if delimiter.escape:
             delimiters_and_startswith_actions.append((delimiter.escape, truncate_to_s_type(delimiter.escape)))
+        if not delimiter.multiline:
+            # newlines are special inside this delimiter too
+            all_delimiter_characters |= all_newlines
+            delimiters_and_startswith_actions.extend((c, truncate_to_s_type(c)) for c in newlines)
+        if len(delimiters_and_startswith_actions) > 1:
             # longer delimiters take priority
             delimiters_and_startswith_actions.sort(key=lambda t: -len(t[0]))
 
-- 
2.43.0


From 35fbf2a23a7b4861ee0ccd7b33e8aeafcfe73d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 35/76] fix: lines_strip_indent refused to dedent by several
 levels at once

---
 big/text.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/big/text.py b/big/text.py
index 71282ec..1855c37 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3528,17 +3528,10 @@ def lines_strip_indent(li):
             # we're outdenting.
             # ensure that this line's indent is one we've seen before.
             assert leadings
-            leadings.pop()
-            indent -= 1
-            while leadings:
-                l = leadings[-1]
-                if l >= column_number:
-                    if l > column_number:
-                        leadings.clear()
-                    break
+            while leadings and (leadings[-1] > column_number):
                 leadings.pop()
                 indent -= 1
-            if not leadings:
+            if not (leadings and (leadings[-1] == column_number)):
                 raise IndentationError(f"Line {info.line_number} column {column_number}: unindent doesn't match any outer indentation level")
             new_indent = False
 
-- 
2.43.0


From 1d840d31e636125f47b5265c9bb04a88020b073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 36/76] fix: LineInfo computed wrong column numbers when text
 with tabs was clipped in several steps

---
 big/text.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/big/text.py b/big/text.py
index 1855c37..5131aff 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2798,7 +2798,7 @@ class LineInfo:
             # (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
@@ -2807,10 +2807,11 @@ class LineInfo:
             return empty
         if s is None:
             s = l[:i]
+        # tabs must be measured from the start of the line,
+        # not from the start of the clipped substring.
+        self.column_number -= len(self.detab(self.leading))
         self.leading += s
-        detabbed = self.detab(s)
-        length = len(detabbed)
-        self.column_number += length
+        self.column_number += len(self.detab(self.leading))
         return line
 
     def clip_trailing(self, line, s):
@@ -2839,7 +2840,7 @@ class LineInfo:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
-- 
2.43.0


From b1c9a5d6f8c64c44960dff43378e3c96f2c1e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 37/76] fix: LineInfo.clip_trailing clipped the entire line
 when asked to clip nothing

---
 big/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 5131aff..71c9e63 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2835,6 +2835,8 @@ class LineInfo:
             i = s
             s = None
             l = line
+        if not i:
+            return line
         line = line[:-i]
         if not line:
             # if you clip the entire line, we move the entire line into trailing (minus end)
@@ -3024,14 +3026,14 @@ def lines_rstrip(li, separators=None):
         for info, line in li:
             rstripped = line.rstrip()
             if rstripped != line:
-                line = info.clip_trailing(line, -len(rstripped))
+                line = info.clip_trailing(line, len(line) - len(rstripped))
             yield (info, line)
         return
 
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
-            line = info.clip_trailing(line, -len(rstripped))
+            line = info.clip_trailing(line, len(line) - len(rstripped))
         yield (info, rstripped)
 
 
-- 
2.43.0


From 0bb2b7e046fc709972b6269639fb38954d829609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 38/76] fix: lines_strip mislocated the stripped text if it
 also occurs in the leading separators

---
 big/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 71c9e63..3b86a71 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3060,7 +3060,9 @@ def lines_strip(li, separators=None):
             if line:
                 stripped = multistrip(line, separators)
                 if stripped:
-                    leading, _, trailing = line.partition(stripped)
+                    i = len(line) - len(multistrip(line, separators, left=True, right=False))
+                    leading = line[:i]
+                    trailing = line[i + len(stripped):]
                 else:
                     trailing = line
 
-- 
2.43.0


From 4fbcc23bf19b04ce077e4efab2264c56b6d53e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 39/76] fix: lines_strip and lines_rstrip only stripped the
 first line if separators was an iterator

---
 big/text.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/big/text.py b/big/text.py
index 3b86a71..73f6d35 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3030,6 +3030,10 @@ def lines_rstrip(li, separators=None):
             yield (info, line)
         return
 
+    if not isinstance(separators, (str, bytes)):
+        # in case separators is an iterator: we use it for every line
+        separators = tuple(separators)
+
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
@@ -3054,6 +3058,9 @@ def lines_strip(li, separators=None):
     Composable with all the lines_ modifier functions in the big.text module.
     """
     if separators is not None:
+        if not isinstance(separators, (str, bytes)):
+            # in case separators is an iterator: we use it for every line
+            separators = tuple(separators)
 
         for info, line in li:
             leading = trailing = None
-- 
2.43.0


From 02503b817e199dd002bdc98a40872bc3f1506bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 40/76] fix: line comment functions only accepted sequences of
 markers and quotes, not any iterable

---
 big/text.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/big/text.py b/big/text.py
index 73f6d35..3ce68ed 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3142,6 +3142,10 @@ def lines_filter_line_comment_lines(li, comment_markers):
 
     Composable with all the lines_ modifier functions in the big.text module.
     """
+    if not isinstance(comment_markers, bytes):
+        # in case comment_markers is an iterator, or can't be indexed
+        comment_markers = tuple(comment_markers)
+
     if not comment_markers:
         raise ValueError("illegal comment_markers")
 
@@ -3402,6 +3406,14 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     Composable with all the lines_ modifier functions in the big.text module.
     """
 
+    # in case any of these are iterators, or can't be indexed
+    if line_comment_markers and not isinstance(line_comment_markers, (str, bytes)):
+        line_comment_markers = tuple(line_comment_markers)
+    if quotes and not isinstance(quotes, (str, bytes)):
+        quotes = tuple(quotes)
+    if multiline_quotes and not isinstance(multiline_quotes, (str, bytes)):
+        multiline_quotes = tuple(multiline_quotes)
+
     # check line_comment_markers
     if not line_comment_markers:
         bad_value = True
-- 
2.43.0


From 909c36b908b1dc110a1815c68587daf83333bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 41/76] fix: lines_strip_line_comments reported the wrong
 column for an unterminated multi-line quote

---
 big/text.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 3ce68ed..4cf27a5 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3332,13 +3332,12 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
                     column_number -= length_yielded
                     raise SyntaxError(f"Line {info.line_number} column {column_number}: unterminated quoted marker {leading_quote}")
                 state = leading_quote
-                starting_pair_for_state = info, line
+                starting_pair_for_state = info, column_number - length_yielded
 
         yield (info, line)
 
     if state:
-        info, line = starting_pair_for_state
-        column_number -= length_yielded
+        info, column_number = starting_pair_for_state
         raise SyntaxError(f"Line {info.line_number} column {column_number}: unterminated quoted marker {state}")
 
 _lines_strip_line_comments = lines_strip_line_comments
-- 
2.43.0


From 53ba4386be0908e1cc8f51306801affc6c90e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 42/76] fix: LineInfo accepted a re.Pattern instead of a
 re.Match as match

---
 big/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 4cf27a5..712bdeb 100644
--- a/big/text.py
+++ b/big/text.py
@@ -48,10 +48,12 @@ try:
     regex_Pattern = regex.Pattern
     def isinstance_re_pattern(o):
         return isinstance(o, (re_Pattern, regex_Pattern))
+    _re_Match = (type(re.match('', '')), type(regex.match('', '')))
 except ImportError: # pragma: no cover
     regex_Pattern = re_Pattern
     def isinstance_re_pattern(o):
         return isinstance(o, re_Pattern)
+    _re_Match = type(re.match('', ''))
 
 
 __all__ = []
@@ -2747,8 +2749,8 @@ class LineInfo:
         elif not isinstance(end, line_type):
             raise TypeError(f"end must be same type as line or None, not {end!r}")
 
-        if not ((match == None) or isinstance_re_pattern(match)):
-            raise TypeError("match must be None or re.Pattern")
+        if not ((match is None) or isinstance(match, _re_Match)):
+            raise TypeError("match must be None or re.Match")
 
         self.lines = lines
         self.line = line
-- 
2.43.0


From 81beafa8ffc2c602af3980ff00b4fbcafa262389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 43/76] fix: lines_sort called the key function if it was a
 false value other than None

---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 712bdeb..7f348a7 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3266,7 +3266,7 @@ def lines_sort(li, *, key=None, reverse=False):
     Composable with all the lines_ modifier functions in the big.text module.
     """
     lines = list(li)
-    if key == None:
+    if not key:
         fn = lambda t: t[1]
     else:
         fn = lambda t: key(t)
-- 
2.43.0


From 7684e56e1aad4e4ed5dd17d80d385aa19d2b1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 44/76] fix: lines_strip_indent failed an assertion on an
 indent of tabs if tab_width is zero

---
 big/text.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 7f348a7..2931efc 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3535,7 +3535,6 @@ def lines_strip_indent(li):
         if column_number == info.lines.column_number:
             # this line doesn't start with whitespace; text is at column 0.
             # outdent to zero.
-            assert not info.leading
             indent = 0
             leadings.clear()
             new_indent = False
-- 
2.43.0


From 3956dfeb7e396ee95f6dfcd8af291b0519ae64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 45/76] fix: lines_strip_line_comments reported columns of
 unterminated quotes without expanding tabs

---
 big/text.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 2931efc..69b6eb4 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3289,13 +3289,14 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
 
         line_comment_segments = None
 
-        column_number = info.column_number
+        # how much of line we've examined so far
+        offset = 0
 
         leading_quote = segment = trailing_quote = ''
         for leading_quote, segment, trailing_quote in i:
             # it's easier to proactively add the length, and remove it if we raise
             length_yielded = len(leading_quote) + len(segment) + len(trailing_quote)
-            column_number += length_yielded
+            offset += length_yielded
 
             if leading_quote:
                 continue
@@ -3330,11 +3331,13 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
 
         if not line_comment_segments:
             if leading_quote and not trailing_quote:
+                offset -= length_yielded
+                column_number = info.column_number - len(info.detab(info.leading))
+                column_number += len(info.detab(info.leading + line[:offset]))
                 if leading_quote not in multiline_quotes:
-                    column_number -= length_yielded
                     raise SyntaxError(f"Line {info.line_number} column {column_number}: unterminated quoted marker {leading_quote}")
                 state = leading_quote
-                starting_pair_for_state = info, column_number - length_yielded
+                starting_pair_for_state = info, column_number
 
         yield (info, line)
 
-- 
2.43.0


From 88d1b5c2fe39266f74f931c75da5a2ad9999c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 46/76] fix: lines_strip_line_comments looked for illegal
 newlines in the comments it strips

---
 big/text.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/big/text.py b/big/text.py
index 69b6eb4..2659a27 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3274,7 +3274,7 @@ def lines_sort(li, *, key=None, reverse=False):
     yield from iter(lines)
 
 
-def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quotes, escape, empty_join):
+def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quotes, escape):
     "The generator function returned by the public lines_strip_line_comments function."
     state = None
     starting_pair_for_state = None
@@ -3287,7 +3287,7 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
         else:
             i = iter( (('', line, ''),) )
 
-        line_comment_segments = None
+        found_comment = False
 
         # how much of line we've examined so far
         offset = 0
@@ -3318,18 +3318,14 @@ def lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quote
                 continue
 
             # found a comment marker in an unquoted segment!
-            leading = fields[0]
-            line_comment_segments = fields[1:]
-
-            # exhaust i, draining it to line_comment_segments
-            for triplet in i:
-                line_comment_segments.extend(triplet)
-            assert line_comment_segments
-            line = info.clip_trailing(line, empty_join(line_comment_segments))
+            # everything from there on is comment, don't parse it.
+            found_comment = True
+            comment_start = offset - len(segment) + len(fields[0])
+            line = info.clip_trailing(line, len(line) - comment_start)
 
             break
 
-        if not line_comment_segments:
+        if not found_comment:
             if leading_quote and not trailing_quote:
                 offset -= length_yielded
                 column_number = info.column_number - len(info.detab(info.leading))
@@ -3425,15 +3421,12 @@ def lines_strip_line_comments(li, line_comment_markers, *,
         bad_value = False
         line_comment_markers = _iterate_over_bytes(line_comment_markers)
         is_bytes = True
-        empty = b''
     else:
         is_bytes = isinstance(line_comment_markers[0], bytes)
         if is_bytes:
             bad_value = False
-            empty = b''
         else:
             bad_value = not isinstance(line_comment_markers[0], str)
-            empty = ''
     if bad_value:
         raise ValueError(f"line comment markers must be str, bytes, or an non-empty iterable of str or bytes, not {line_comment_markers!r}")
 
@@ -3456,7 +3449,7 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     line_comment_pattern = __separators_to_re(tuple(line_comment_markers), separators_is_bytes=is_bytes, separate=True, keep=True)
     line_comment_splitter = re.compile(line_comment_pattern).split
 
-    return _lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quotes, escape, empty.join)
+    return _lines_strip_line_comments(li, line_comment_splitter, quotes, multiline_quotes, escape)
 
 
 
-- 
2.43.0


From 1e7c7994a3ee00eae2db4a070a818ebd5a63a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 47/76] fix: lines_strip_line_comments used the default escape
 and quotes if they were false values other than empty strings

---
 big/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/text.py b/big/text.py
index 2659a27..aff5a43 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3430,6 +3430,11 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     if bad_value:
         raise ValueError(f"line comment markers must be str, bytes, or an non-empty iterable of str or bytes, not {line_comment_markers!r}")
 
+    # if these are false, there are no quotes, no multiline quotes, and no escape string
+    quotes = quotes or ()
+    multiline_quotes = multiline_quotes or ()
+    escape = escape or (b'' if is_bytes else '')
+
     # use split_quoted_string to validate quotes, multiline_quotes, and escape, if specified
     not_empty = quotes or multiline_quotes
     if not_empty:
-- 
2.43.0


From 5200adebc6b48e3d5b510888fcfea7a5c0874a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 48/76] fix: wrap_words ignored two_spaces=False

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index aff5a43..1c0896a 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3650,13 +3650,13 @@ def wrap_words(words, margin=79, *, two_spaces=True):
             if isinstance(word, bytes):
                 empty = lastword = b''
                 sentence_ending_punctuation = (b'.', b'?', b'!')
-                two_spaces = b'  '
+                two_spaces = two_spaces and b'  '
                 one_space = b' '
                 newline = b'\n'
             else:
                 empty = lastword = ''
                 sentence_ending_punctuation = ('.', '?', '!')
-                two_spaces = '  '
+                two_spaces = two_spaces and '  '
                 one_space = ' '
                 newline = '\n'
 
-- 
2.43.0


From 2804b406b957d6f913950ae6465dfc5bc2d82f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 49/76] fix: split_text_with_code lost a line of code at the
 end of the text if it had no newline

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 1c0896a..d52f7fd 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3845,6 +3845,8 @@ class _column_wrapper_splitter:
             self.state(empty.join(self.leading), empty.join(self.word))
             self.leading.clear()
             self.word.clear()
+        # flush the current line of code, if any.
+        self.state(self.empty, self.newline_string)
 
     def state_paragraph_start(self, leading, word):
         """
-- 
2.43.0


From 22dc711291ef533b7fd9265c2fb37cf4d7119f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 50/76] fix: split_text_with_code kept line breaks of code
 paragraphs when going on with text

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index d52f7fd..063f234 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3904,6 +3904,8 @@ class _column_wrapper_splitter:
 
         if self.previous_paragraph == _code_paragraph:
             self.paragraph_break()
+            # the line breaks after the code are part of the paragraph break.
+            self.code.clear()
         self.state = self.state_text_line_start
         self.state(leading, word)
 
-- 
2.43.0


From 0c3862b36bc1fadfab4f0e9f57b39233fffad503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 51/76] fix: merge_columns misaligned columns with lines ending
 in whitespace

---
 big/text.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 063f234..1a993c8 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4160,8 +4160,6 @@ def merge_columns(*columns, column_separator=None,
         if in_overflow:
             overflow_end = line_number + overflow_after
             add_overflow()
-            for i in range(overflow_after):
-                rstripped_lines.append(empty)
 
         if delay_all and overflows:
             overflows.clear()
@@ -4175,7 +4173,7 @@ def merge_columns(*columns, column_separator=None,
 
         in_overflow = False
         next_overflow()
-        for line_number, line in enumerate(lines):
+        for line_number, line in enumerate(rstripped_lines):
             if line_number > overflow_end:
                 in_overflow = False
                 next_overflow()
-- 
2.43.0


From 009dffb097f34e1d8614e6ab7c74755bf4e44697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 52/76] fix: merge_columns made every column max_width wide,
 whatever its text and min_width

---
 big/text.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 1a993c8..ea272b9 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4120,8 +4120,6 @@ def merge_columns(*columns, column_separator=None,
         operator.index(min_width)
         operator.index(max_width)
 
-        empty_columns.append(max_width * space)
-
         if isinstance(s, (str, bytes)):
             lines = s.rstrip().split(newline)
         else:
@@ -4161,6 +4159,11 @@ def merge_columns(*columns, column_separator=None,
             overflow_end = line_number + overflow_after
             add_overflow()
 
+        # the column is as wide as its longest line,
+        # but at least min_width and at most max_width.
+        width = min(max(max_line_length, min_width), max_width)
+        empty_columns.append(width * space)
+
         if delay_all and overflows:
             overflows.clear()
             overflows.append((0, overflow_end))
@@ -4180,7 +4183,7 @@ def merge_columns(*columns, column_separator=None,
             if line_number >= overflow_start:
                 in_overflow = True
             if not in_overflow:
-                line = line.ljust(max_width)
+                line = line.ljust(width)
             padded_lines.append((line, in_overflow))
 
         columns.append(padded_lines)
-- 
2.43.0


From c0b22e1e52246ee5f2dd666cad0237416218afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 53/76] fix: timestamps of a struct_time with its own time zone
 were wrong unless it was called GMT

---
 big/time.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/big/time.py b/big/time.py
index 4212e19..0d5909e 100644
--- a/big/time.py
+++ b/big/time.py
@@ -43,6 +43,17 @@ def export(o):
 
 
 
+def _struct_time_to_seconds(t):
+    # a time.struct_time only knows its time zone sometimes:
+    # time.localtime and strptime("%z") set tm_gmtoff,
+    # strptime("%Z") only sets tm_zone.
+    if t.tm_gmtoff is not None:
+        return calendar.timegm(t) - t.tm_gmtoff
+    if t.tm_zone in ("GMT", "UTC"):
+        return calendar.timegm(t)
+    return time.mktime(t)
+
+
 _timestamp_human_format = "%Y/%m/%d %H:%M:%S"
 
 @export
@@ -74,10 +85,7 @@ def timestamp_human(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
-        else:
-            t = time.mktime(t)
+        t = _struct_time_to_seconds(t)
         # force None to False
         want_microseconds = bool(want_microseconds)
 
@@ -138,10 +146,7 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
-        else:
-            t = time.mktime(t)
+        t = _struct_time_to_seconds(t)
         want_microseconds = bool(want_microseconds)
 
     if t is None:
-- 
2.43.0


From 495a82d9e5851bf0003347e8e8591a85f080c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 54/76] fix: timestamp_3339Z didn't write years before 1000
 with four digits

---
 big/time.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/big/time.py b/big/time.py
index 0d5909e..0bdafbc 100644
--- a/big/time.py
+++ b/big/time.py
@@ -111,10 +111,6 @@ def timestamp_human(t=None, want_microseconds=None):
     return s
 
 
-_timestamp_3339Z_format_base = "%Y-%m-%dT%H:%M:%S"
-_timestamp_3339Z_format = f"{_timestamp_3339Z_format_base}Z"
-_timestamp_3339Z_microseconds_format = f"{_timestamp_3339Z_format_base}.%fZ"
-
 @export
 def timestamp_3339Z(t=None, want_microseconds=None):
     """
@@ -166,12 +162,9 @@ def timestamp_3339Z(t=None, want_microseconds=None):
         # t must be a type that supports microseconds
         want_microseconds = True
 
-    if want_microseconds:
-        f = _timestamp_3339Z_microseconds_format
-    else:
-        f = _timestamp_3339Z_format
-
-    return t.strftime(f)
+    # strftime("%Y") doesn't pad the year on every platform
+    timespec = "microseconds" if want_microseconds else "seconds"
+    return t.replace(tzinfo=None).isoformat(timespec=timespec) + "Z"
 
 
 @export
-- 
2.43.0


From 45f9bc59a9b61fdda2eb454e4cf9daa248f865a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 55/76] fix: datetime_ensure_timezone replaced a time zone that
 is a false value

---
 big/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/time.py b/big/time.py
index 0bdafbc..0f0fe00 100644
--- a/big/time.py
+++ b/big/time.py
@@ -196,7 +196,7 @@ def datetime_ensure_timezone(d, timezone):
     object equivalent to d with its tzinfo set
     to timezone.
     """
-    if d.tzinfo:
+    if d.tzinfo is not None:
         return d
     return datetime_set_timezone(d, timezone)
 
-- 
2.43.0


From 027ccb57381c1d439ebe49e2b23ac8f31d27fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 56/76] fix: grep and fgrep found an empty line after the end
 of the file

---
 big/file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/file.py b/big/file.py
index d9bcf65..b0835d5 100644
--- a/big/file.py
+++ b/big/file.py
@@ -94,6 +94,9 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
     with f:
         contents = f.read()
         split = contents.split(separator)
+        if not split[-1]:
+            # what follows the last newline isn't a line
+            split.pop()
         if not case_insensitive:
             if enumerate:
                 return [t for t in builtins.enumerate(split, 1) if text in t[1]]
@@ -167,6 +170,9 @@ def grep(path, pattern, *, encoding=None, enumerate=False, flags=0):
     with f:
         text = f.read()
         split = text.split(separator)
+        if not split[-1]:
+            # what follows the last newline isn't a line
+            split.pop()
         if enumerate:
             return [t for t in builtins.enumerate(split, 1)
                     if pattern.search(t[1])]
-- 
2.43.0


From 16573e280a8a78127a76c4aa03347863c5b33f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:04 +0000
Subject: [PATCH 57/76] fix: case-insensitive fgrep missed text with a final
 sigma

---
 big/file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index b0835d5..2133524 100644
--- a/big/file.py
+++ b/big/file.py
@@ -102,9 +102,14 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
                 return [t for t in builtins.enumerate(split, 1) if text in t[1]]
             return [line for line in split if text in line]
 
-        lower_contents = contents.lower()
+        if isinstance(text, bytes):
+            lower_contents = contents.lower()
+            text = text.lower()
+        else:
+            # str.lower depends on the context, str.casefold doesn't
+            lower_contents = contents.casefold()
+            text = text.casefold()
         lower_split = lower_contents.split(separator)
-        text = text.lower()
         if enumerate:
             return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
         return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
-- 
2.43.0


From 145124b4e1c7a4f5b5c36ea41db99ead265e4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 58/76] fix: pushd restored the directory it was created in,
 not the one it was entered from

---
 big/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index 2133524..d524c7d 100644
--- a/big/file.py
+++ b/big/file.py
@@ -203,11 +203,13 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = os.getcwd()
+        self.cwds = []
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.path)
+        self.cwds.append(cwd)
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
 @export
-- 
2.43.0


From 23a28c920490b9278cfd1f6a753aca39eac67285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 59/76] fix: touch emptied a file created just before touch
 created it

---
 big/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/file.py b/big/file.py
index d524c7d..a1518ea 100644
--- a/big/file.py
+++ b/big/file.py
@@ -285,7 +285,9 @@ def touch(path):
     if os.path.exists(path):
         os.utime(path)
     else:
-        with open(path, "wb") as f:
+        # "ab" and not "wb": if somebody else created
+        # the file in the meantime, don't truncate it
+        with open(path, "ab") as f:
             pass
 
 # exfat allowed characters:
-- 
2.43.0


From 7fbc8ba37e4f02e3108f2a227c356f16937bda04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 60/76] fix: get_int_or_float raised for infinities and
 not-a-number, or lost them

---
 big/builtin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big/builtin.py b/big/builtin.py
index 7cca96a..0b16905 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -113,7 +113,11 @@ def get_int_or_float(o, default=_sentinel):
     if isinstance(o, int):
         return o
     if isinstance(o, float):
-        int_o = int(o)
+        try:
+            int_o = int(o)
+        except (OverflowError, ValueError):
+            # infinity, or not a number
+            return o
         if int_o == o:
             return int_o
         return o
-- 
2.43.0


From d1dae2a482b2ecad1a285e9d57c427336718ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 61/76] fix: the number conversions raised if the conversion
 failed with other exceptions than TypeError and ValueError

---
 big/builtin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 0b16905..c50b5b1 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -48,7 +48,7 @@ def try_float(o):
     try:
         float(o)
         return True
-    except (TypeError, ValueError):
+    except Exception:
         return False
 
 @export
@@ -60,7 +60,7 @@ def try_int(o):
     try:
         int(o)
         return True
-    except (TypeError, ValueError):
+    except Exception:
         return False
 
 _sentinel = object()
@@ -75,7 +75,7 @@ def get_float(o, default=_sentinel):
     """
     try:
         return float(o)
-    except (TypeError, ValueError):
+    except Exception:
         if default != _sentinel:
             return default
         return o
@@ -90,7 +90,7 @@ def get_int(o, default=_sentinel):
     """
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except Exception:
         if default != _sentinel:
             return default
         return o
@@ -123,12 +123,12 @@ def get_int_or_float(o, default=_sentinel):
         return o
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except Exception:
         try:
             # if you pass in the *string* "0.0",
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
-        except (TypeError, ValueError):
+        except Exception:
             if default != _sentinel:
                 return default
             return o
-- 
2.43.0


From 5a461fe7721b4055ebb95c6ff2bcfce345a3de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 62/76] fix: the number conversions compared the default value
 for equality, which can fail or mislead

---
 big/builtin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index c50b5b1..34effaa 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -76,7 +76,7 @@ def get_float(o, default=_sentinel):
     try:
         return float(o)
     except Exception:
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -91,7 +91,7 @@ def get_int(o, default=_sentinel):
     try:
         return int(o)
     except Exception:
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -129,7 +129,7 @@ def get_int_or_float(o, default=_sentinel):
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
         except Exception:
-            if default != _sentinel:
+            if default is not _sentinel:
                 return default
             return o
 
-- 
2.43.0


From 76e10fd47bc5fb919f1f3be4b53420c32e70715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 63/76] fix: gently_title didn't capitalize words after a lone
 letter D or O or a lone quote mark

---
 big/text.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/big/text.py b/big/text.py
index ea272b9..9ccdd98 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1584,18 +1584,16 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
         is_space = c.isspace() or (c == lparen)
         is_apostrophe = _is_apostrophe(c)
         is_double_quote = _is_double_quote(c)
-        if state == _in_word:
-            if is_space:
-                state = _after_whitespace
+        if is_space:
+            state = _after_whitespace
         elif state == _after_whitespace:
-            if not is_space:
-                c = c.upper()
-                if (is_apostrophe or is_double_quote):
-                    state = _after_whitespace_then_apostrophe_or_double_quote
-                elif _is_d_or_o(c):
-                    state = _after_whitespace_then_D_or_O
-                else:
-                    state = _in_word
+            c = c.upper()
+            if (is_apostrophe or is_double_quote):
+                state = _after_whitespace_then_apostrophe_or_double_quote
+            elif _is_d_or_o(c):
+                state = _after_whitespace_then_D_or_O
+            else:
+                state = _in_word
         elif state == _after_whitespace_then_apostrophe_or_double_quote:
             if not (is_apostrophe or is_double_quote):
                 c = c.upper()
-- 
2.43.0


From 78ffa8e99522aabf2aa7f89c71f5ed0d9f7bf0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 64/76] fix: gently_title accepted an empty iterator of
 apostrophes or double quotes

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 9ccdd98..1703ddb 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1558,7 +1558,7 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
             if not o:
                 raise ValueError("apostrophes must be an iterable of non-empty objects the same type as s, or None")
             cast_apostrophes.append(o)
-        if not apostrophes:
+        if not cast_apostrophes:
             raise ValueError("apostrophes must be an iterable of non-empty objects the same type as s")
         _is_apostrophe = frozenset(cast_apostrophes).__contains__
 
@@ -1572,7 +1572,7 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
             if not o:
                 raise ValueError("double_quotes must be an iterable of non-empty objects the same type as s, or None")
             cast_double_quotes.append(o)
-        if not double_quotes:
+        if not cast_double_quotes:
             raise ValueError("double_quotes must be an iterable of non-empty objects the same type as s")
         _is_double_quote = frozenset(cast_double_quotes).__contains__
 
-- 
2.43.0


From bc25ad8963bc6addf308e3cf0d423bc31762b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 65/76] fix: Log.print printed wrong fractions for times of a
 second and more, and too few digits for a fractional_width over 9

---
 big/log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/log.py b/big/log.py
index ef96c9c..16e1a24 100644
--- a/big/log.py
+++ b/big/log.py
@@ -178,8 +178,8 @@ class Log:
 
         def format_time(t):
             assert t is not None
-            seconds = t // 1_000_000_000
-            nanoseconds = f"{t - seconds:>09}"
+            seconds, nanoseconds = divmod(t, 1_000_000_000)
+            nanoseconds = f"{nanoseconds:09}".ljust(fractional_width, "0")
             nanoseconds = nanoseconds[:fractional_width]
             return f"{seconds:0{seconds_width}}.{nanoseconds}"
 
-- 
2.43.0


From 66e578c0bc6629a6011a67019dde2c6d9c09cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 66/76] fix: deprecated split_quoted_strings raised
 RuntimeError for text that ends with an opening quote mark

---
 big/deprecated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 84ec58f..2d67ed6 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -153,10 +153,11 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
                 in_quote = c
                 continue
             # scan for triple quotes.
-            c2 = next(i)
+            c2 = i.next(None)
             if c2 != c:
                 # only a single quote mark. flush unquoted string, start quoted string.
-                i.push(c2)
+                if c2 is not None:
+                    i.push(c2)
                 if text:
                     yield False, empty_join(text)
                     text.clear()
-- 
2.43.0


From 7e01313554f2c6aff1560a4b02514d543a038fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 67/76] fix: deprecated parse_delimiters raised TypeError
 instead of ValueError for errors in bytes

---
 big/deprecated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 2d67ed6..879d766 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -367,7 +367,7 @@ def parse_delimiters(s, delimiters, backslash_character, closers, empty):
     if len(stack):
         stack.pop(0)
         stack.append(d)
-        raise ValueError("s does not close all opened delimiters, needs " + " ".join(d.close for d in reversed(stack)))
+        raise ValueError("s does not close all opened delimiters, needs " + " ".join(str(d.close) for d in reversed(stack)))
 
     if text:
         yield flush(empty, empty)
@@ -448,7 +448,7 @@ def parse_delimiters(s, delimiters=None):
     disallowed = {disallowed_delimiters}
     illegal_delimiters = disallowed & delimiter_characters
     if illegal_delimiters:
-        raise ValueError("illegal delimiters used: " + "".join(illegal_delimiters))
+        raise ValueError("illegal delimiters used: " + "".join(str(d) for d in illegal_delimiters))
 
     # closers is a set of closing delimiters *only*.
     # if open and close delimiters are the same (e.g. quote marks)
@@ -464,7 +464,7 @@ def parse_delimiters(s, delimiters=None):
             closers.add(d.close)
 
     if repeated:
-        raise ValueError("these opening delimiters were used multiple times: " + " ".join(repeated))
+        raise ValueError("these opening delimiters were used multiple times: " + " ".join(str(d) for d in repeated))
 
     return _parse_delimiters(s, delimiters, backslash_character, closers, empty)
 
-- 
2.43.0


From babc83600d8b6655b21fdd73113178942a72a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:00 +0000
Subject: [PATCH 68/76] fix: deprecated lines_strip_comments ignored quote
 marks in bytes by default

---
 big/deprecated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/deprecated.py b/big/deprecated.py
index 879d766..ebdf278 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -523,6 +523,10 @@ def lines_strip_comments(li, comment_separators, *, quotes=('"', "'"), backslash
 
     if comment_separators_is_bytes:
         empty = b''
+        if quotes == ('"', "'"):
+            quotes = (b'"', b"'")
+        if backslash == '\\':
+            backslash = b'\\'
     else:
         empty = ''
     empty_join = empty.join
-- 
2.43.0


From f4d4ea906559ae656c583cfa36e10d3d855cd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:05 +0000
Subject: [PATCH 69/76] fix: deprecated split_quoted_strings and
 lines_strip_comments used up iterators of quote marks and separators

---
 big/deprecated.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/big/deprecated.py b/big/deprecated.py
index ebdf278..f45bf94 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -129,6 +129,10 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
         if backslash is None:
             backslash = '\\'
         i = s
+    if isinstance(quotes, bytes):
+        quotes = _iterate_over_bytes(quotes)
+    # in case quotes is an iterator: we use it for every character
+    quotes = tuple(quotes)
     empty_join = empty.join
 
     i = PushbackIterator(i)
@@ -511,6 +515,12 @@ def lines_strip_comments(li, comment_separators, *, quotes=('"', "'"), backslash
 
     Composable with all the lines_ modifier functions in the big.text module.
     """
+    # in case these are iterators, or can't be indexed
+    if comment_separators and not isinstance(comment_separators, bytes):
+        comment_separators = tuple(comment_separators)
+    if quotes and not isinstance(quotes, bytes):
+        quotes = tuple(quotes)
+
     if not comment_separators:
         raise ValueError("illegal comment_separators")
 
-- 
2.43.0


From a7fcc40d54fd077e252494bfd70b43091d697a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 70/76] fix: Heap.extend left the heap out of order if the
 iterable raised an exception

---
 big/heap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 8d0b32b..e22dc02 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -76,7 +76,9 @@ class Heap:
         return copy
 
     def extend(self, i):
-        self._queue.extend(i)
+        # if iterating over i raises an exception, it mustn't be
+        # after we've already added some (unsorted) values.
+        self._queue.extend(list(i))
         heapify(self._queue)
         self._version += 1
 
-- 
2.43.0


From 6cb98ac1f8b075aca31f6cfe5a9912313d83f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:55 +0000
Subject: [PATCH 71/76] fix: TopologicalSorter.add with an unhashable
 dependency left nodes that no view ever offers

---
 big/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 06d622f..72b8f69 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -471,6 +471,10 @@ class TopologicalSorter:
         """
         # print(f"{node:3} depends on {dependencies!r}")
 
+        # if any argument isn't hashable, raise TypeError now,
+        # before we've changed anything.
+        hash(dependencies)
+
         new_nodes = []
         new_successors = []
 
-- 
2.43.0


From f25de085c93746db9ee22f92b8ad65f824480866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 72/76] fix: normalize_whitespace returned a replacement that
 is an instance of a subclass of str or bytes unconverted

---
 big/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/text.py b/big/text.py
index 1703ddb..0475419 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1673,6 +1673,9 @@ def normalize_whitespace(s, separators=None, replacement=None):
         replacement = default_replacement
     elif not isinstance(replacement, s_type):
         raise TypeError("replacement must be the same type as s, or None")
+    else:
+        # if replacement is an instance of a subclass, convert it to str or bytes
+        replacement = empty.join((replacement,))
 
     if not s:
         return empty
-- 
2.43.0


From 52d3b1df4e656137928126cf094da15a72c1b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:51 +0000
Subject: [PATCH 73/76] fix: lines raised TypeError for an iterable of
 instances of a subclass of str or bytes

---
 big/text.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 0475419..55bbef0 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2730,7 +2730,8 @@ class LineInfo:
         if not isinstance(column_number, int):
             raise TypeError(f"column_number must be int, not {column_number!r}")
 
-        line_type = type(line)
+        # (line may be an instance of a subclass)
+        line_type = bytes if is_bytes else str
 
         if not isinstance(indent, int):
             raise TypeError("indent must be int")
@@ -2876,6 +2877,14 @@ class LineInfo:
         return isinstance(other, self.__class__) and (other.__dict__ == self.__dict__)
 
 
+def _base_string(s):
+    if isinstance(s, str):
+        return ''.join((s,))
+    if isinstance(s, bytes):
+        return b''.join((s,))
+    return s
+
+
 @_export
 class lines:
     def __init__(self, s, separators=None, *, line_number=1, column_number=1, tab_width=8, **kwargs):
@@ -3001,6 +3010,10 @@ class lines:
                 if not is_pairs:
                     self.is_pairs = end = b'' if self.s_is_bytes else ''
 
+        # if they're instances of a subclass, convert them to str or bytes
+        line = _base_string(line)
+        end = _base_string(end)
+
         if self.is_pairs and end:
             original_line = line + end
         else:
-- 
2.43.0


From 27317027e2ec1429d774cac72ab2bc81d9b1b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 74/76] fix: encode_strings raised TypeError for named tuples
 and defaultdicts, subclasses of tuple and dict with other constructors

---
 big/text.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/big/text.py b/big/text.py
index 55bbef0..0f7fd7c 100644
--- a/big/text.py
+++ b/big/text.py
@@ -24,6 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR
 THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 """
 
+import collections
 import enum
 import functools
 import heapq
@@ -83,6 +84,12 @@ def _recursive_encode_strings(o, encoding):
         return o.encode(encoding)
 
     type_o = type(o)
+    if isinstance(o, collections.defaultdict):
+        type_o = functools.partial(type_o, o.default_factory)
+    elif isinstance(o, tuple):
+        # named tuples
+        type_o = getattr(type_o, '_make', type_o)
+
     if isinstance(o, dict):
         return type_o({
             _recursive_encode_strings(k, encoding):
-- 
2.43.0


From be822a07c000ab6003333eb15c762b1fd82f47b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:19 +0000
Subject: [PATCH 75/76] fix: a copy of an object shared, and used, the bound
 inner classes of the original

---
 big/boundinnerclass.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index b0996b2..5133cd5 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -100,18 +100,14 @@ class _Worker(object):
 
         name = self.cls.__name__
 
-        # We cache the bound class under our own name--unless that name
-        # means something else in outer's class.  (Somebody's calling
-        # super().Inner, and the subclass overrode Inner.)  In that case
-        # we mustn't clobber the real "Inner".
-        key = name
-        if _lookup(outer, name) is not self:
-            key = self.cls.__module__ + "." + self.cls.__qualname__
-
-        # If we were accessed through an alias, or through super(),
-        # the cached copy didn't preempt calling us.  Use it now.
-        cached = outer.__dict__.get(key)
-        if isinstance(cached, type) and (cached.__bases__[:1] == (self.cls,)):
+        # We cache the bound class in outer's dict, but not under our own
+        # name.  That name may mean something else in outer's class
+        # (somebody's calling super().Inner, and the subclass overrode
+        # Inner).  And if outer is copied, the cache is copied too; we must
+        # notice that what's in there isn't bound to the copy.
+        key = f"<{name} bound by {id(self):#x}>"
+        cached, bound_to = outer.__dict__.get(key, (None, None))
+        if (cached is not None) and (bound_to() is outer) and (cached.__bases__[0] is self.cls):
             return cached
 
         wrapper_bases = [self.cls]
@@ -157,10 +153,12 @@ class _Worker(object):
         if multiply_inherit:
             Wrapper.__bases__ = tuple(wrapper_bases)
 
-        # Cache the bound instance in outer's dict.
-        # This also means that future requests for us won't call our
-        # __get__ again, it'll automatically use the cached copy.
-        outer.__dict__[key] = Wrapper
+        try:
+            bound_to = weakref.ref(outer)
+        except TypeError:
+            # outer doesn't support weak references
+            bound_to = lambda: outer
+        outer.__dict__[key] = (Wrapper, bound_to)
         return Wrapper
 
 
-- 
2.43.0


From 857166697ebf71c4eb405c2b31cbc2580f28e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:24 +0000
Subject: [PATCH 76/76] fix: finding a cycle took exponential time if many
 paths lead away from the cycles

---
 big/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 72b8f69..3e9af25 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -628,6 +628,12 @@ class TopologicalSorter:
         seen = set()
         cycle = []
 
+        # nodes we've ascended from.  there's no cycle to be found
+        # from these; don't examine them again.  (if we did, we'd examine
+        # every *path* from the node we started with, and there can be
+        # exponentially many of those.)
+        exhausted = set()
+
         while iterators:
             top = iterators[-1]
             try:
@@ -637,6 +643,8 @@ class TopologicalSorter:
                 # marked 'done' yet, and the only thing we ever
                 # add to 'iterators' are successor nodes.
                 assert node not in done
+                if node in exhausted:
+                    continue
                 if node in seen:
                     # found a cycle
                     index = cycle.index(node)
@@ -650,6 +658,7 @@ class TopologicalSorter:
                 # ascend
                 node = cycle.pop()
                 seen.remove(node)
+                exhausted.add(node)
                 iterators.pop()
 
     def check_for_cycles(self):
-- 
2.43.0

