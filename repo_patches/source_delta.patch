From cdb52a0908125ac1d6ce76808c06798d9af5112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 01/49] fix: from_store with key takes the item out of the
 store that holds it

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..df0ea1e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8233,13 +8233,16 @@ by adding:
                         if found_key is None or this_key < found_key:
                             found_c = c
                             found_key = this_key
+                            found_store = store
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
         if found_c:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From a9bc27739815f5b6ad441286282aa653048302e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 02/49] fix: Store.rescan hands at most one item to each
 from_store requester

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index df0ea1e..7362d38 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From 41372b70ced48f521861a4bdb029e845e9e7c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 03/49] fix: no endless recursion when a to_store item is
 handed over to a from_store requester

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7362d38..d136860 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9791,11 +9791,11 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From 66e3ac6509790b20f3eee3213c8ee7dba1482dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 04/49] fix: request the same resource more than once adds up
 the quantities

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d136860..f0a508e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8622,6 +8622,7 @@ by adding:
                 self._requests[r] += q  # is same resource is specified several times, just add them up
             else:
                 self._requests[r] = q
+                self.enter(r._requesters, priority)
             if called_from == "request":
                 req_text = "request " + str(q) + " from "
             elif called_from == "put":
@@ -8635,7 +8636,6 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 545aec77d68566ed1612b57b9084d1f174a38bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:36 +0000
Subject: [PATCH 05/49] fix: a resource honors the next requester too, if
 honor_only_first or honor_only_highest_priority is set

---
 salabim/salabim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f0a508e..4ec750b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24326,12 +24326,12 @@ class Resource:
         if self._anonymous:
             if not self._trying:
                 self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
+                mx = self._requesters._head.successor
                 while mx != self._requesters._tail:
+                    mx_first = self._requesters._head.successor
                     if self._honor_only_first and mx != mx_first:
                         break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                    if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                         break
                     c = mx.component
                     mx = mx.successor
@@ -24341,13 +24341,13 @@ class Resource:
 
                 self._trying = False
         else:
-            mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
+            mx = self._requesters._head.successor
 
             while mx != self._requesters._tail:
+                mx_first = self._requesters._head.successor
                 if self._honor_only_first and mx != mx_first:
                     break
-                if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                     break
                 if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
-- 
2.43.0


From bde13ef079eaa549605c37c766c01bfe4a23d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:36 +0000
Subject: [PATCH 06/49] fix: do not step onto a requester that was honored
 already via an anonymous resource

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4ec750b..3522626 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24354,6 +24354,9 @@ class Resource:
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if mx.component is None:  # at the tail or just honored via an anonymous resource
+                    if mx != self._requesters._tail:
+                        mx = self._requesters._head.successor  # start again
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From f1c7ee4462132ef67c164e5d24c96dc788e3ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:36 +0000
Subject: [PATCH 07/49] fix: standby components stay pending when the current
 component has skip_standby

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3522626..ccc6725 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11190,7 +11190,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist = self.env._pendingstandbylist + self.env._standbylist
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From 8f26ba0a1761bc9b3027d05505dd248f9537010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:36 +0000
Subject: [PATCH 08/49] fix: random_seed seeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ccc6725..98863a8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25444,7 +25444,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From 4fcc9b8ce2dd9fea0fb7d567bfaa9d5d608fe87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:36 +0000
Subject: [PATCH 09/49] fix: suppress_trace, over3d and cap_now restore the
 setting also upon an exception

---
 salabim/salabim.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 98863a8..9938e92 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13219,8 +13219,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
@@ -27785,8 +27787,10 @@ def over3d(val: bool = True):
     """
     save_default_over3d = default_over3d()
     default_over3d(val)
-    yield
-    default_over3d(save_default_over3d)
+    try:
+        yield
+    finally:
+        default_over3d(save_default_over3d)
 
 
 _default_over3d = False
@@ -27832,8 +27836,10 @@ def cap_now(val: bool = True):
     """
     save_default_cap_now = default_cap_now()
     default_cap_now(val)
-    yield
-    default_cap_now(save_default_cap_now)
+    try:
+        yield
+    finally:
+        default_cap_now(save_default_cap_now)
 
 
 def default_cap_now(val: bool = None) -> bool:
-- 
2.43.0


From 10d536e2e7ca0c9c480e5463b123af7901bbb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 10/49] fix: Pdf and Pmf with equal probabilities sample from
 distribution x-values

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9938e92..e48a932 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22727,7 +22727,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22869,7 +22870,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 871d61d74f8ba4a10b600001ad1a1c4fb3873e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 11/49] fix: Pdf, Pmf, CumPdf and CumPmf never sample 0 or an
 x-value with zero probability if the random value is 0

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e48a932..2ed48b5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22738,8 +22738,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22881,8 +22881,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23055,8 +23055,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23165,8 +23165,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From e1676c8447d19f0e8213bd49c205f090d48b4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 12/49] fix: Monitor.multiply keeps the weights

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2ed48b5..71abe42 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1601,6 +1601,7 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            new._weight = self._weight[:] if self._weight else self._weight
             return new
 
         else:
-- 
2.43.0


From e66b583c406f699e14639c61c4b93f6c94f22443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 13/49] fix: Monitor.slice without start and after reset_now

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 71abe42..ee52789 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -836,8 +836,8 @@ class Monitor:
             if self.env._animate:
                 stop = min(stop, self.env._t)
             else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
+                stop = min(stop, self.env._now)  # not self.now() in order to support frozen monitors
+            actions.append((start_, "a", 0, 0))
             actions.append((stop, stop_action, 0, 0))
         else:
             if start is None:
-- 
2.43.0


From c2884ba242b89270123e3d71ee561a01613cbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 14/49] fix: duration of a stats_only level monitor includes
 the time since the last tally

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ee52789..fcd0f73 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2225,6 +2225,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From 0bcbbd95bf2e618e00c0b4cbb4f52e422a0c2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 15/49] fix: wait_for uses request_priority to enter the
 waiters queues

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fcd0f73..fcbf77f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8995,10 +8995,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From 7673cda0d8571b69e3995d120a6604d5c2a8d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 16/49] fix: wait with a $ expression works for any value type,
 also without all=True

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fcbf77f..e1a0a21 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9272,7 +9272,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From b82aeb8fd67860f9d8000a5d7d18aece55f9dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 17/49] fix: Queue.append honors the priority

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e1a0a21..4ff2834 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4914,7 +4914,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From b194e85f59fbc4176c4135a4969b9cd5665d1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 18/49] fix: a preemptive request bumps claimers only if that
 makes the request honorable

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4ff2834..7ce04c7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8653,7 +8653,7 @@ by adding:
                         break
                     av += c.claimed_quantity(this_claimers)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From 60750a474be48ebe6135580c2045fc9126b4ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 19/49] fix: remaining_duration cannot be set for data
 components

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7ce04c7..28cb48c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9994,6 +9994,8 @@ by adding:
                 raise ValueError("setting remaining_duration not allowed for current component (" + self.name() + ")")
             elif self.status.value == standby:
                 raise ValueError("setting remaining_duration not allowed for standby component (" + self.name() + ")")
+            elif self.status.value == data:
+                raise ValueError("setting remaining_duration not allowed for data component (" + self.name() + ")")
             else:
                 self._remove()
                 self._reschedule(value + self.env._now, priority, urgent, "set remaining_duration", False, extra="")
-- 
2.43.0


From 796fb8564016160ce9796d115973ce28d80d61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 20/49] fix: Queue.insert at the end uses the priority of the
 last component

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 28cb48c..6bff6a4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4992,7 +4992,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = self._tail.predecessor.priority if mx == self._tail else mx.priority
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From b55f54b5703a64a4caa0485d9613eabccc8117d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 21/49] fix: initial occupancy of a resource reflects
 initial_claimed_quantity

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6bff6a4..4077c78 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24064,7 +24064,7 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0 if self._capacity <= 0 else self._claimed_quantity / self._capacity, monitor=monitor, type="float", env=self.env)
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From 7b1824044461e1fb4ab4b839ae5a1434a0fb193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:28 +0000
Subject: [PATCH 22/49] fix: ComponentGenerator takes reset_now into account

---
 salabim/salabim.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4077c78..88fd1b7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20489,7 +20489,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20590,6 +20590,8 @@ class ComponentGenerator(Component):
                     else:
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
+        if at is not None:
+            at -= env._offset
 
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
@@ -20627,9 +20629,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20651,19 +20653,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20699,9 +20701,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20723,19 +20725,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From b969b8efa3cfbfe75714d76246e5952646e191b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:28 +0000
Subject: [PATCH 23/49] fix: ComponentGenerator spreads over duration if no iat
 and no till are given

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 88fd1b7..2517c67 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20535,6 +20535,7 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
+                    till = self.till
                     if till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
-- 
2.43.0


From 7125f1e729dd99cef2932cf8194ec63be9c62b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:28 +0000
Subject: [PATCH 24/49] fix: ComponentGenerator calls at_end also if a
 disturbance is given

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2517c67..c04e1ff 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20663,6 +20663,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20735,6 +20736,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 529952b9314acbf83ecfceaf2d4150658109c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:28 +0000
Subject: [PATCH 25/49] fix: PeriodMonitor works in yieldless mode and more
 than once for the same monitor

---
 salabim/salabim.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c04e1ff..03eb64f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24505,15 +24505,23 @@ class _PeriodComponent(Component):
     def setup(self, pm):
         self.pm = pm
 
-    def process(self):
+    def next_period(self, iperiod):
+        self.pm.perperiod[self.pm.iperiod].monitor(False)
+        self.pm.iperiod = iperiod
+        if self.pm.m._level:
+            self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
+        self.pm.perperiod[self.pm.iperiod].monitor(True)
+
+    def do_periods(self):
         for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
-            self.pm.perperiod[self.pm.iperiod].monitor(False)
-            self.pm.iperiod = iperiod
-            if self.pm.m._level:
-                self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
-            self.pm.perperiod[self.pm.iperiod].monitor(True)
+            self.next_period(iperiod)
             yield self.hold(duration)
 
+    def do_periods_yieldless(self):
+        for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
+            self.next_period(iperiod)
+            self.hold(duration)
+
 
 class PeriodMonitor:
     """
@@ -24568,8 +24576,9 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
         self.env = _set_env(env)
+        process = "do_periods_yieldless" if self.env._yieldless else "do_periods"
+        self.pc = _PeriodComponent(pm=self, process=process, skip_standby=True, suppress_trace=True, env=self.env)
 
         if periods is None:
             periods = 24 * [1]
@@ -24582,13 +24591,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From c7c4dc2cc70e8544b4bfab50dd30df18705827de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:58 +0000
Subject: [PATCH 26/49] fix: an interrupted component has no scheduled time and
 keeps its remaining duration upon passivate

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 03eb64f..2ec0419 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7888,7 +7888,8 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._check_fail()
-            self._remaining_duration = self._scheduled_time - self.env._now
+            if self.status.value != interrupted:
+                self._remaining_duration = self._scheduled_time - self.env._now
         self._scheduled_time = inf
 
         self.set_mode(mode)
@@ -7932,6 +7933,7 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._remaining_duration = self._scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = self.status.value
             self._interrupt_level = 1
             self.status._value = interrupted
-- 
2.43.0


From 9e3bb9f3a600c1c84750a96c91fd70f35e1af472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:53 +0000
Subject: [PATCH 27/49] fix: a preemptive request takes into account what the
 bumped claimers hold

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2ec0419..84cea31 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8653,7 +8653,7 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
                 if av >= q:
                     for c in bump_candidates:
-- 
2.43.0


From eca28ed6c32d292fba5119bc6e71355f352c8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:37 +0000
Subject: [PATCH 28/49] fix: Resource.release does not take back claims that
 are honored as a result of the release

---
 salabim/salabim.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 84cea31..e3ac352 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24411,11 +24411,9 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
-                c.release(self)
+            # only what is claimed now; not what is honored as a result of the releases
+            for c, q in [(c, c._claims[self]) for c in self._claimers]:
+                c.release((self, q))
 
     def requesters(self) -> Queue:
         """
-- 
2.43.0


From 7fdbfa454448f499d3e080afe329ea3da98b6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:19 +0000
Subject: [PATCH 29/49] fix: waiting requests on anonymous resources are
 honored before the current component continues in yieldless mode

---
 salabim/salabim.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e3ac352..b78d243 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7469,6 +7469,10 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
+        if switch:
+            self._switch()
+
+    def _switch(self):
         if self.env._yieldless:
             if self is self.env._current_component:
                 self.env._glet.switch()
@@ -7525,7 +7529,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7552,7 +7556,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8796,9 +8800,10 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in anonymous_resources:
                 r._tryrequest()
+            self._switch()
             return True
         else:
             return False
-- 
2.43.0


From 46066fd4f431ea22ba9298c6a9f6f60e46f2a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 30/49] fix: State.trigger with max=0 releases no waiters

---
 salabim/salabim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b78d243..59325c1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23821,13 +23821,11 @@ class State:
 
     def _trywait(self, max=inf):  # this _trywait of a state
         mx = self._waiters._head.successor
-        while mx != self._waiters._tail:
+        while mx != self._waiters._tail and max > 0:
             c = mx.component
             mx = mx.successor
             if c._trywait():
                 max -= 1
-                if max == 0:
-                    return
 
     def monitor(self, value: bool = None) -> None:
         """
-- 
2.43.0


From 06aa680d4f45ce5ff99a13b51cde2c8ee93f0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:59 +0000
Subject: [PATCH 31/49] fix: merged, sliced, mapped and multiplied monitors
 keep the start time, so they can be sliced

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 59325c1..dae03db 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -633,6 +633,7 @@ class Monitor:
                     new._weight.append(weight)
                 new._t.append(t)
                 new._x.append(x)
+            new.start = min(m.start for m in merge)
         new.monitor(False)
         new.isgenerated = True
         return new
@@ -733,6 +734,7 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            new.start = self.start
 
         for m in monitors:
             del m._x_any
@@ -820,6 +822,7 @@ class Monitor:
         if name is None:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
+        new.start = self.start
         actions = []
         if modulo is None:
             if start is None:
@@ -1599,6 +1602,7 @@ class Monitor:
                 name = self.name()
             new = _SystemMonitor(name=name, monitor=False, type="float", level=False, env=self.env)
             new.isgenerated = True
+            new.start = self.start
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
             new._weight = self._weight[:] if self._weight else self._weight
-- 
2.43.0


From ddf2a69c2d6de1bf540f16327a632cb3e98182ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:59 +0000
Subject: [PATCH 32/49] fix: t_multiply does not lose the last value if that is
 at the current time after scaling

---
 salabim/salabim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dae03db..358b0ab 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -657,8 +657,12 @@ class Monitor:
             new._t.append(t * factor)
 
         new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new._monitor = False
+        if new._t[-1] == self.env._now * factor:
+            new._x[-1] = new.off
+        else:
+            new._x.append(new.off)
+            new._t.append(self.env._now * factor)
         new.isgenerated = True
         return new
 
-- 
2.43.0


From 7787713421707f9b2a6c7c05c8a78c4a8adfe5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 33/49] fix: Monitor.slice with modulo includes the period at
 the start and takes reset_now into account

---
 salabim/salabim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 358b0ab..d215b03 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -855,13 +855,13 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
-            len1 = (stop - start_) % modulo
+            start_ = (start + self.env._offset) % modulo
+            len1 = (stop - start) % modulo
+            start1 = self.start - (self.start % modulo) + start_ - modulo
             while start1 < self.env._now:
-                actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                if start1 + len1 > self.start:
+                    actions.append((max(start1, self.start), "a", 0, 0))
+                    actions.append((start1 + len1, "b", 0, 0))  # non inclusive
                 start1 += modulo
 
         if new._level:
-- 
2.43.0


From 330b6635b1248a21d8d3f2cb4fbb27cf7dae4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:26 +0000
Subject: [PATCH 34/49] fix: minimum and maximum of a stats_only level monitor
 include the current value

---
 salabim/salabim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d215b03..30b9187 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1764,6 +1764,8 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._minimum[ex0]
             else:
@@ -1790,6 +1792,9 @@ class Monitor:
         """
 
         if self._stats_only:
+            ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._maximum[ex0]
             else:
-- 
2.43.0


From aff5a2a7ca944f664806abf738674399443496be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:36 +0000
Subject: [PATCH 35/49] fix: Monitor.slice of periods in which the monitor was
 off, that end after now, or start after now

---
 salabim/salabim.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 30b9187..7040bd5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -844,8 +844,9 @@ class Monitor:
                 stop = min(stop, self.env._t)
             else:
                 stop = min(stop, self.env._now)  # not self.now() in order to support frozen monitors
-            actions.append((start_, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+            if start_ <= stop:
+                actions.append((start_, "a", 0, 0))
+                actions.append((stop, stop_action, 0, 0))
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
@@ -861,7 +862,10 @@ class Monitor:
             while start1 < self.env._now:
                 if start1 + len1 > self.start:
                     actions.append((max(start1, self.start), "a", 0, 0))
-                    actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                    if start1 + len1 <= self.env._now:
+                        actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+                    else:
+                        actions.append((self.env._now, "z", 0, 0))  # inclusive
                 start1 += modulo
 
         if new._level:
@@ -906,9 +910,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = curx
                     else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != curx:
                             new._t.append(t)
                             new._x.append(curx)
                 elif type in ("b", "z"):
@@ -916,9 +918,7 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = self.off
                     else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
+                        if new._x[-1] != self.off:
                             new._t.append(t)
                             new._x.append(self.off)
                 else:
@@ -927,9 +927,7 @@ class Monitor:
                             if new._t[-1] == t:
                                 new._x[-1] = x
                             else:
-                                if x == new._x[-1]:
-                                    new._t[-1] = t
-                                else:
+                                if new._x[-1] != x:
                                     new._t.append(t)
                                     new._x.append(x)
                     curx = x
-- 
2.43.0


From 974b85848d1c22e5eb7a248c1330f29741737880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:34 +0000
Subject: [PATCH 36/49] fix: switching a level monitor off invalidates the
 cached values

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7040bd5..ab3838a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1335,6 +1335,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From 1e0bae119b86e8efc3bd4d075ca17355684f8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:14 +0000
Subject: [PATCH 37/49] fix: mean of Constant with a time unit applies the time
 unit once

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ab3838a..e7109c9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21906,7 +21906,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
-- 
2.43.0


From 220fae6da3474362e74c5d58c2d82fbb31a5421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:14 +0000
Subject: [PATCH 38/49] fix: Erlang with a time unit multiplies by the time
 unit factor

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e7109c9..7499986 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22441,7 +22441,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22449,7 +22449,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From d2bbff8673035f91e720cd84c0992c40459cae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:15 +0000
Subject: [PATCH 39/49] fix: mean of Pdf, Pmf, CumPdf, CumPmf and Distribution
 uses the mean of the constituting distributions

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7499986..67de1de 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22691,7 +22691,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23035,7 +23035,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23477,7 +23477,7 @@ class Distribution(_Distribution):
             self.randomstream = randomstream
         self._distribution = d
         try:
-            self._mean = d._mean
+            self._mean = d.mean()
         except AttributeError:
             self._mean = nan
 
-- 
2.43.0


From 857c94b18b028f8cc229b4bed37bb277a30c0653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:30 +0000
Subject: [PATCH 40/49] fix: TrajectoryPolygon.length does not count passed
 segments twice

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 67de1de..2ba50ed 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6595,7 +6595,7 @@ class TrajectoryPolygon(_Trajectory):
         if length <= self.cum_length[0]:
             return length, 0, 0
         if length >= self.cum_length[-1]:
-            return 0, len(self.cum_length) - 1, len(self.cum_length) - 1
+            return self.cum_length[-1], len(self.cum_length) - 1, len(self.cum_length) - 1
 
         i = searchsorted(self.cum_length, length) - 1
         return length, i, i + 1
@@ -6710,7 +6710,7 @@ class TrajectoryPolygon(_Trajectory):
             total length if t omitted
         """
         length, i, j = self.indexes(t, _t0=_t0)
-        return self.cum_length[i] + length
+        return length
 
     def rendered_polygon(self, time_step: float = 1) -> List[Tuple[float, float]]:
         """
-- 
2.43.0


From f4f0aa789cb9ff12cdb2ba90a2700e01ce0b71a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:30 +0000
Subject: [PATCH 41/49] fix: TrajectoryCircle.length without t returns the
 total length

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2ba50ed..ebe08e5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6958,6 +6958,8 @@ class TrajectoryCircle(_Trajectory):
         """
         t0 = self._t0 if _t0 is None else _t0
         t1 = t0 + self._duration
+        if t is None:
+            t = t1
         if t < t0:
             t = t0
         elif t > t1:
-- 
2.43.0


From b9b2a075f2f6d6d483c1b4534b2c236d21a71e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:09 +0000
Subject: [PATCH 42/49] fix: a merged trajectory can be part of another merged
 trajectory

---
 salabim/salabim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ebe08e5..dca1d67 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6058,6 +6058,10 @@ class TrajectoryMerged(_Trajectory):
         i = searchsorted(self._t0s, t, "left") - 1
         return i
 
+    def _own_t(self, t, _t0):
+        # if part of another merged trajectory, _t0 is the start time there
+        return t if _t0 is None else t - _t0 + self._t0
+
     def __repr__(self):
         return f"TrajectoryMerged(t0={self._t0}, trajectories={self._trajectories}, t0s={self._t0s})"
 
@@ -6074,6 +6078,7 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated x : float
         """
+        t = self._own_t(t, _t0)
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6092,6 +6097,7 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated y : float
         """
+        t = self._own_t(t, _t0)
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6110,6 +6116,7 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated angle (in degrees) : float
         """
+        t = self._own_t(t, _t0)
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6179,6 +6186,7 @@ class TrajectoryMerged(_Trajectory):
         if t is None:
             i = len(self._trajectories) - 1
         else:
+            t = self._own_t(t, _t0)
             i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
-- 
2.43.0


From 53b1ba847be01ad2a528dfdb74b959eff61e2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:09 +0000
Subject: [PATCH 43/49] fix: ComponentGenerator honors force_at and force_till
 if the number is sampled as 1

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dca1d67..c9a0dbd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20572,7 +20572,7 @@ class ComponentGenerator(Component):
 
                     moments = sorted([Uniform(at, till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
                             moments = [at] if force_at else [till]
-- 
2.43.0


From 0a3600345fb2a4a782d17ab67ba16040b05d0daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:09 +0000
Subject: [PATCH 44/49] fix: equidistant ComponentGenerator with a disturbance
 starts at the start time

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c9a0dbd..1e2cd46 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20589,7 +20589,7 @@ class ComponentGenerator(Component):
             else:
                 if equidistant:
                     force_till = False  # just to prevent errors further on
-                    force_at = True  # just to prevent errors further on
+                    force_at = self.force_at = True  # force_at is ignored
                     duration = self.till - at
                     if duration < 0:
                         raise ValueError("at > till not allowed for equidistant")
-- 
2.43.0


From 3a338ebfa755628a75ecf6c169e33b76ffc98e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:18 +0000
Subject: [PATCH 45/49] fix: peek takes reset_now into account

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1e2cd46..fc53fd3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4113,7 +4113,7 @@ if Pythonista:
                             env._t = env.animation_start_time
                         else:
                             env._t = env.animation_start_time + ((time.time() - env.animation_start_clocktime) * env._speed)
-                    while (env.peek() < env._t) and env.running and env._animate:
+                    while (env.peek() + env._offset < env._t) and env.running and env._animate:
                         env.step()
 
                 else:
@@ -13140,13 +13140,13 @@ class Environment:
         Only for advance use with animation / GUI event loops
         """
         if len(self.env._pendingstandbylist) > 0:
-            return self.env._now
+            return self.env._now - self._offset
         else:
             if self._event_list:
-                return self._event_list[0][0]
+                return self._event_list[0][0] - self._offset
             else:
                 if self.end_on_empty_eventlist:
-                    return self._now
+                    return self._now - self._offset
                 else:
                     return inf
 
@@ -13504,7 +13504,7 @@ class Environment:
                         self._t = self.animation_start_time
                     else:
                         self._t = self.animation_start_time + ((time.time() - self.animation_start_clocktime) * self._speed)
-                while self.peek() < self._t:
+                while self.peek() + self._offset < self._t:
                     self.step()
                     if not (self.running and self._animate):
                         if self.root is not None:
-- 
2.43.0


From 73868b55c8092304188b4fecddb56384d11ec7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:24 +0000
Subject: [PATCH 46/49] fix: ComponentGenerator without any arrival before till
 does not require another generator in a yield model

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fc53fd3..432de86 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20613,7 +20613,7 @@ class ComponentGenerator(Component):
                             at += self.iat
                 if at > self.till:
                     at = self.till
-                    process = "do_finalize"
+                    process = "do_finalize" if env._yieldless else "do_finalize_yield"
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
@@ -20775,6 +20775,11 @@ class ComponentGenerator(Component):
         self.env.print_trace("", "", "till reached")
         self.at_end()
 
+    def do_finalize_yield(self):
+        self.do_finalize()
+        return
+        yield  # just to make this a generator
+
     def print_info(self, as_str: bool = False, file: TextIO = None) -> str:
         """
         prints information about the component generator
-- 
2.43.0


From 8700e36e0022d345695862479195d6b4a930fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 47/49] fix: hold with interrupted on a scheduled component no
 longer reports the old scheduled time

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 432de86..12c90b4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7862,6 +7862,7 @@ by adding:
 
         if interrupted:
             self._remaining_duration = scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = scheduled
             self._interrupt_level = int(interrupted)
             self.status._value = "interrupted"
-- 
2.43.0


From 12356a6b048dcb0ea3c905d004bdb3f12f2b8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:54 +0000
Subject: [PATCH 48/49] fix: Monitor.x_map keeps the weights of a non level
 monitor

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 12c90b4..4fe6fca 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -738,6 +738,7 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            new._weight = self._weight[:] if self._weight else self._weight
             new.start = self.start
 
         for m in monitors:
-- 
2.43.0


From 966876a5303ac360acd0a9e983cc49eebdd811a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:34 +0000
Subject: [PATCH 49/49] fix: ComponentGenerator with a negative disturbance can
 end after till without an error

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4fe6fca..bc020ff 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20685,7 +20685,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
+                yield self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
@@ -20758,7 +20758,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till - self.env._offset)
+                self.activate(process="do_finalize", at=max(self.till, self.env._now) - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
-- 
2.43.0

