From 91ea075ac5f863287669627ab63e88e1957de7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 001/178] fix: uvm_is_match must match the whole string, not a
 substring of it

---
 src/uvm/base/uvm_globals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index b20cadd..77483b2 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -247,7 +247,7 @@ def uvm_is_match(expr: str, _str: str) -> int:
     It must not contain any wildcards.
     """
     s = uvm_glob_to_re(expr)
-    return uvm_re_match(s, _str) == 0
+    return uvm_re_match("^(?:" + s + r")\Z", _str) == 0
 
 
 UVM_LINE_WIDTH = 120
-- 
2.43.0


From be34f2f64eeda2792a64fb4af4f0a7d62e11b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 002/178] fix: a by-name type override must not rebind the
 registered type name

---
 src/uvm/base/uvm_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..53d4bd5 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,8 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
+            if original_type is None:
+                self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From ea1a6a37b0d3ea9781eb65aef1c2862f8e57ef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 003/178] fix: PRI_HIGH must move a resource to the front of
 its search queue

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..9f233af 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1514,7 +1514,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From 034789ec22ae16988927c491d41683deb83f91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 004/178] fix: a resource scope without a trailing wildcard
 must not match deeper scopes

---
 src/uvm/base/uvm_resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 9f233af..4f73135 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -434,7 +434,11 @@ class UVMResourceBase(UVMObject):
             s:
         Returns:
         """
-        err = uvm_re_match(self.scope, s)
+        if self.scope == "":
+            return True
+        # The pattern must reach the end of the scope: a resource set for 'a.b'
+        # is not visible in 'a.b.c'
+        err = uvm_re_match("(?:" + self.scope + r")\Z", s)
         return (err == 0)
 
     #//----------------
-- 
2.43.0


From aa8740800dedf13a7d65c581f7c5521cf1665636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 005/178] fix: sort_by_precedence must order by precedence, not
 by first appearance

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 4f73135..db54f9c 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1287,7 +1287,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
-- 
2.43.0


From 80a711ddcb783ba299e3bde8898166f975b24198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 006/178] fix: the first UVMResource.get_type() call must
 return the type handle

---
 src/uvm/base/uvm_resource.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index db54f9c..babe37f 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -658,8 +658,7 @@ class UVMResource(UVMResourceBase):
     def get_type(cls):
         if UVMResource.my_type is None:
             UVMResource.my_type = UVMResource()
-        else:
-            return UVMResource.my_type
+        return UVMResource.my_type
 
     def get_type_handle(self):
         """
-- 
2.43.0


From 0467bf1527fb952250a175f4200456ac67625920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 007/178] fix: automatic configuration must apply the highest
 precedence setting last

---
 src/uvm/base/uvm_component.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..af991b5 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,11 +1216,12 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for i in reversed(range(len(rq))):
 
             r = rq[i]
             name = r.get_name()
             # // does name have brackets [] in it?
+            j = 0
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
                     break
-- 
2.43.0


From a5575dffa55d5b8ef731705d3a8f5ad4eba8d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 008/178] fix: an agent must take is_active from the highest
 precedence setting

---
 src/uvm/comps/uvm_agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/comps/uvm_agent.py b/src/uvm/comps/uvm_agent.py
index 34afc24..5a09afd 100644
--- a/src/uvm/comps/uvm_agent.py
+++ b/src/uvm/comps/uvm_agent.py
@@ -76,6 +76,7 @@ class UVMAgent(UVMComponent):
             rsrc = rq[i]  # uvm_resource_base
             rap = rsrc
             self.is_active = rap.read(self)
+            break  # rq is in precedence order
 
     type_name = "uvm_agent"
 
-- 
2.43.0


From 59684e5d027c4ad0b7e13c66d4d89380ade8c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 009/178] fix: set_drain_time() must set the drain time of the
 given object

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..0567981 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -899,7 +899,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
-- 
2.43.0


From 0dd562b8660e812e9bdd3ab786ead91336f8d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 010/178] fix: fork every scheduled drain, not only one per
 wakeup

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 0567981..0b65302 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -777,7 +777,7 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
-- 
2.43.0


From acd6ab81c2075a900975c31f2c0af5b2728f09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 011/178] fix: a re-raise during the drain time must cancel the
 drain

---
 src/uvm/base/uvm_objection.py | 42 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 0b65302..fe7d511 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -495,6 +495,7 @@ class UVMObjection(UVMReportObject):
             idx += 1
 
         # If it's not there, go through the forked list
+        drain_running = False
         if ctxt is None:
             idx = 0
             while idx < len(self.m_forked_list):
@@ -512,8 +513,9 @@ class UVMObjection(UVMReportObject):
             if obj in self.m_forked_contexts:
                 # Caught it with the forked drain running
                 ctxt = self.m_forked_contexts[obj]
+                # The drain ends itself when its context is gone
                 del self.m_forked_contexts[obj]
-                # Kill the drain
+                drain_running = True
 
         uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
         # TODO
@@ -561,7 +563,8 @@ class UVMObjection(UVMReportObject):
 
             # Cleanup
             ctxt.clear()
-            UVMObjection.m_context_pool.append(ctxt)
+            if not drain_running:
+                UVMObjection.m_context_pool.append(ctxt)
         #  endfunction
 
     #  // Function: drop_objection
@@ -742,23 +745,12 @@ class UVMObjection(UVMReportObject):
         # entries... clear out one, free the other.
         self.m_scheduled_contexts = {}
         while len(self.m_forked_list) > 0:
-            self.m_forked_list[0].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
-
-        # running drains have a context and a process
-        for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
+            front = self.m_forked_list.pop(0)
+            front.clear()
+            UVMObjection.m_context_pool.append(front)
 
-            self.m_forked_contexts[o].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
-            del self.m_forked_contexts[o]
+        # a running drain ends itself when its context is gone
+        self.m_forked_contexts = {}
 
         self.m_top_all_dropped = False
         self.m_cleared = 1
@@ -819,8 +811,11 @@ class UVMObjection(UVMReportObject):
             #    objection.m_drain_proc[ctxt.obj]=c
 
             # Execute the forked drain
+            obj = ctxt.obj
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
-                    ctxt.count, 1)
+                    ctxt.count, 1, ctxt)
+            if objection.m_forked_contexts.get(obj) is not ctxt:
+                return  # re-raised (or cleared) during the drain
             # Cleanup if we survived (no re-raises)
             if ctxt.obj in objection.m_drain_proc:
                 del objection.m_drain_proc[ctxt.obj]
@@ -845,11 +840,16 @@ class UVMObjection(UVMReportObject):
     #                       int in_top_thread=0)
 
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
-            in_top_thread=0):
+            in_top_thread=0, ctxt=None):
+
+        def cancelled():
+            return ctxt is not None and self.m_forked_contexts.get(obj) is not ctxt
 
         if obj in self.m_drain_time:
             # TODO `uvm_delay(self.m_drain_time[obj])
             await Timer(self.m_drain_time[obj])
+            if cancelled():
+                return
 
         if self.m_trace_mode:
             self.m_report(obj,source_obj,description,count,"all_dropped")
@@ -859,6 +859,8 @@ class UVMObjection(UVMReportObject):
         # wait for all_dropped cbs to complete
         await uvm_zero_delay()
         # TODO wait fork
+        if cancelled():
+            return
 
         # we are ready to delete the 0-count entries for the current
         # object before propagating up the hierarchy.
-- 
2.43.0


From d083246370876544dfbcdf0fc550fcbda8652070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 012/178] fix: UVMObjection.wait_for must not return for an
 event of the past

---
 src/uvm/base/uvm_objection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index fe7d511..eed1c31 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -991,10 +991,13 @@ class UVMObjection(UVMReportObject):
 
         self.m_events[obj].waiters += 1
         if objt_event == UVM_RAISED:
+            self.m_events[obj].raised.clear()  # only a later one counts
             await self.m_events[obj].raised.wait()
         elif objt_event == UVM_DROPPED:
+            self.m_events[obj].dropped.clear()  # only a later one counts
             await self.m_events[obj].dropped.wait()
         elif objt_event == UVM_ALL_DROPPED:
+            self.m_events[obj].all_dropped.clear()  # only a later one counts
             await self.m_events[obj].all_dropped.wait()
 
         self.m_events[obj].waiters -= 1
-- 
2.43.0


From 16ccd5610479a8186f10aa6c387415c725dd81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 013/178] fix: objection tracing must not crash

---
 src/uvm/base/uvm_objection.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index eed1c31..11cf417 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -300,33 +300,31 @@ class UVMObjection(UVMReportObject):
             last_dot = 0
             sname = source_obj.get_full_name()
             nm = obj.get_full_name()
-            _max = sname.len()
-            if sname.len() > nm.len():
-                _max = nm.len()
+            _max = min(len(sname), len(nm))
 
             # For readability, only print the part of the source obj hierarchy underneath
             # the current object.
-            while ((sname[cpath] == nm[cpath]) and (cpath < _max)):
+            while cpath < _max and sname[cpath] == nm[cpath]:
                 if (sname[cpath] == "."):
                     last_dot = cpath
                 cpath += 1
 
             if last_dot:
-                sname = sname.substr(last_dot+1, sname.len())
+                sname = sname[last_dot+1:]
 
-        name = obj.get_full_name()
-        if name == "":
-            name = "uvm_top"
-        act_type = "subtracted"
-        if action == "raised":
-            act_type = "added"
-        act_dir = "from"
-        if action == "raised":
-            act_dir = "to"
-        uvm_report_info("OBJTN_TRC",
-            sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
-            " source object %s%s): count=%0d  total=%0d", name, act_type, count,
-            act_dir, action, sname, descr, _count, _total), UVM_NONE)
+            name = obj.get_full_name()
+            if name == "":
+                name = "uvm_top"
+            act_type = "subtracted"
+            if action == "raised":
+                act_type = "added"
+            act_dir = "from"
+            if action == "raised":
+                act_dir = "to"
+            uvm_report_info("OBJTN_TRC",
+                sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
+                " source object %s%s): count=%0d  total=%0d", name, act_type, count,
+                act_dir, action, sname, descr, _count, _total), UVM_NONE)
 
     #  // Function- m_get_parent
     #  //
-- 
2.43.0


From cf82166018ca242e599c6411c8f008d6b6934995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 014/178] fix: adding a phase between two adjacent phases must
 not raise

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..f364a00 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -559,7 +559,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
-- 
2.43.0


From e662602dd67b5bd249c0d96a1bc591b3bf99c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 015/178] fix: parallel phases must not share their predecessor
 and successor tables

---
 src/uvm/base/uvm_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index f364a00..d0772fe 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -523,8 +523,8 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
-- 
2.43.0


From 39007cb147d85106714220677f1b0a3b8b95de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 016/178] fix: phase search must follow every branch of the
 phase graph

---
 src/uvm/base/uvm_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index d0772fe..263418a 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1021,7 +1021,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1050,7 +1051,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
-- 
2.43.0


From dfa97a0c0c19689ea44e524f255610c6adba1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 017/178] fix: wait_for_state must return when the phase is
 already in the state

---
 src/uvm/base/uvm_phase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 263418a..dd1c1a4 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -919,11 +919,9 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
-            await self.m_phase_set_state_event.wait()
+        while not func():
             self.m_phase_set_state_event.clear()
-            if func():
-                break
+            await self.m_phase_set_state_event.wait()
 
     #
     #
-- 
2.43.0


From 1b1f796b59951763cee4425d1b5f24d81e32f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 018/178] fix: dropping an objection to the reset phase must
 not depend on debug prints

---
 src/uvm/base/uvm_phase.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index dd1c1a4..3af31ca 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -798,12 +798,7 @@ class UVMPhase(UVMObject):
     #  // The drop is expected to be matched with an earlier raise.
     #  //
     def drop_objection(self, obj, description="", count=1):
-        if self.get_name() == 'reset':
-            print("EEE object dropping reset obj now " + obj.get_name())
         if self.phase_done is not None:
-            if self.get_name() == 'reset':
-                print("Dropping reset objection\n" +
-                        self.phase_done.convert2string())
             self.phase_done.drop_objection(obj,description,count)
         else:
             self.m_report_null_objection(obj, description, count, "drop")
-- 
2.43.0


From 1182990168f80bfc321943ba581075e0ef09905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 019/178] fix: phase tracing must not call name() on plain
 integers

---
 src/uvm/base/uvm_phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 3af31ca..d2da063 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -355,7 +355,7 @@ class UVMPhase(UVMObject):
         # TBD full search
         # in_scope = stay_in_scope ? " staying within scope" : ""
         # print(("\nFIND node '" + phase.get_name() +"' within " + get_name()
-        #+ " (scope " + self.m_phase_type.name() +")" + in_scope))
+        #+ " (scope " + str(self.m_phase_type) +")" + in_scope))
         found = None
         if phase == self.m_imp or phase == self:
             return phase
@@ -507,9 +507,9 @@ class UVMPhase(UVMObject):
 
         if UVMPhase.m_phase_trace:
             typ = phase.get_phase_type()
-            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + self.m_phase_type.name()
+            uvm_report_info("PH/TRC/ADD_PH", (self.get_name() + " (" + str(self.m_phase_type)
                 + ") ADD_PHASE: phase=" + phase.get_full_name() + " ("
-                + typ.name() + ", inst_id=" + "{}".format(phase.get_inst_id())
+                + str(typ) + ", inst_id=" + "{}".format(phase.get_inst_id())
                 + ")"), UVM_DEBUG)
             #" with_phase=",   (with_phase == null)   ? "null" : with_phase.get_name(),
             #" after_phase=",  (after_phase == null)  ? "null" : after_phase.get_name(),
@@ -1156,7 +1156,7 @@ class UVMPhase(UVMObject):
 
             if UVMPhase.m_phase_trace:
                 s = sv.sformatf("Waiting for phase '%s' (%0d) to be READY_TO_END. Current state is %s",
-                    sibling.get_name(),sibling.get_inst_id(),sibling.m_state.name())
+                    sibling.get_name(),sibling.get_inst_id(),ph2str(sibling.m_state))
                 UVM_PH_TRACE("PH/TRC/WAIT_PRED_OF_SUCC",s,self,UVM_HIGH)
 
             await sibling.wait_for_state(UVM_PHASE_READY_TO_END, UVM_GTE)
-- 
2.43.0


From 6850823e1194f2f7c9ed9ad8b0bfbeb33aeb2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 020/178] fix: every run-time phase get() must return the
 singleton on later calls

---
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From d7a4fc23940e6116aeb1d3f653dc4a86b1bc796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 021/178] fix: factory override loop report must not index
 cleared override info

---
 src/uvm/base/uvm_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 53d4bd5..99ff160 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -669,10 +669,11 @@ class UVMDefaultFactory(UVMFactory):
         for index in range(0, len(self.m_override_info)):
             if self.m_override_info[index].orig_type == requested_type:
                 uvm_report_error("OVRDLOOP", "Recursive loop detected while finding override.", UVM_NONE)
+                # debug_create_by_type() rebuilds m_override_info
+                self.m_override_info[index].used += 1
                 if UVMDefaultFactory.m_debug_pass is False:
                     self.debug_create_by_type(requested_type, full_inst_path)
 
-                self.m_override_info[index].used += 1
                 return requested_type
 
         # inst override; return first match; takes precedence over type overrides
-- 
2.43.0


From 004379fe5c5b345a1705815802a7553db5fc9b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 022/178] fix: the final phase is a top-down phase

---
 src/uvm/base/uvm_common_phases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_common_phases.py b/src/uvm/base/uvm_common_phases.py
index 2ae900a..7501144 100644
--- a/src/uvm/base/uvm_common_phases.py
+++ b/src/uvm/base/uvm_common_phases.py
@@ -459,7 +459,7 @@ class UVMReportPhase(UVMBottomupPhase):
         return UVMReportPhase.type_name
 
 
-class UVMFinalPhase(UVMBottomupPhase):
+class UVMFinalPhase(UVMTopdownPhase):
     """
     Tie up loose ends.
 
@@ -495,7 +495,7 @@ class UVMFinalPhase(UVMBottomupPhase):
         return UVMFinalPhase.m_inst
 
     def __init__(self, name="final"):
-        UVMBottomupPhase.__init__(self, name)
+        UVMTopdownPhase.__init__(self, name)
 
     def get_type_name(self):
         return UVMFinalPhase.type_name
-- 
2.43.0


From 9e7d91e49696da8879485a13f702e50cd5b6caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 023/178] fix: a phase may be added after the final phase

---
 src/uvm/base/uvm_phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index d2da063..d71400e 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1141,8 +1141,8 @@ class UVMPhase(UVMObject):
                     done = False
 
         # remove ourselves from the list
-        if self.get_name() != 'final':
-            del pred_of_succ[self]
+        # (the last phase has no successors, so it is not in the list)
+        pred_of_succ.pop(self, None)
 
 
     async def m_wait_for_pred(self):
-- 
2.43.0


From 0001aa58dd55728eef5c9f1c2f0270544dc28101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 024/178] fix: display_objections must list every object that
 holds objections

---
 src/uvm/base/uvm_objection.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 11cf417..9be8b17 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1067,7 +1067,7 @@ class UVMObjection(UVMReportObject):
         blank = "                                                                                   "
         s = ""
         total = 0
-        lst = UVMPool()
+        lst = {}
         curr_obj = None
         depth = 0
         name = ""
@@ -1094,9 +1094,10 @@ class UVMObjection(UVMReportObject):
         s = s + "---------------------------------------------------------\n"
 
         this_obj_name = obj.get_full_name()
-        curr_obj_name = this_obj_name
 
-        while True:
+        for curr_obj_name in sorted(lst):
+            if not curr_obj_name.startswith(this_obj_name):
+                continue
             curr_obj = lst[curr_obj_name]
 
             # determine depth, count dots "." in the name
@@ -1120,11 +1121,6 @@ class UVMObjection(UVMReportObject):
             s += sv.sformatf("%d       %d       %s'%s'\n", src_count, total_count,
                     blank[0:2*depth], name)
 
-            if not ((lst.has_next() and
-                    curr_obj_name[0:len(this_obj_name)] == this_obj_name)):
-                break
-            curr_obj_name = lst.next()
-
         s = s + "---------------------------------------------------------\n"
 
         return s
-- 
2.43.0


From 24c416f9f457fbcb326abc96710849b39480d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 025/178] fix: a phase traversal must not share its position
 with get_next_child

---
 src/uvm/base/uvm_bottomup_phase.py | 8 +++-----
 src/uvm/base/uvm_topdown_phase.py  | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..c4e1d37 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,9 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # a phase method may itself use the child iterator of any component
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..beee47b 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,9 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        # a phase method may itself use the child iterator of any component
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From 0d6df2b93c12026d4a7e7770f2195b281c6124c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 026/178] fix: pack_field must pack only the low size bits of a
 value

---
 src/uvm/base/uvm_packer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 40d2e7c..caf9b62 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -154,6 +154,7 @@ class UVMPacker(object):
     #  extern def pack_field(self,uvm_bitstream_t value, int size):
     def pack_field(self, value, size) -> None:
         #  for (int i=0; i<size; i++)
+        value &= (1 << size) - 1
         if self.big_endian == 1:
             flipped = self.flip_bit_order(value, size)
             self.m_bits |= flipped << self.count
@@ -170,6 +171,7 @@ class UVMPacker(object):
     #  // ~$bits~. This optimized version of <pack_field> is useful for sizes up
     #  // to 64 bits.
     def pack_field_int(self, value: int, size: int) -> None:
+        value &= (1 << size) - 1
         if self.big_endian == 1:
             flipped = self.flip_bit_order(value, size)
             self.m_bits |= flipped << self.count
@@ -732,7 +734,7 @@ class UVMPacker(object):
 
     def flip_bit_order(self, value, size: int) -> int:
         flipped = 0x0
-        num_bits = len(bin(value)) - 2
+        num_bits = value.bit_length()
         while value:
             flipped = (flipped << 1) + (value & 0x1)  # Choose LSB
             value = value >> 1
-- 
2.43.0


From 8bef8cd931278c9b2230504093a36eb3e6f4582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 027/178] fix: strings must survive packing in either bit
 order, also empty and followed by fields

---
 src/uvm/base/uvm_packer.py | 40 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index caf9b62..1a432bc 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -279,15 +279,11 @@ class UVMPacker(object):
     def pack_string(self, value) -> None:
         bytearr = value.encode()
 
-        size = 8 * len(bytearr)
-        bits = int(bytearr.hex(), 16)
-        if self.big_endian == 1:
-            bits = self.flip_bit_order(bits, -1)
-        self.m_bits |= bits << self.count
-        self.count += size
+        # first character first, each one in the bit order of <big_endian>
+        for byte in bytearr:
+            self.pack_field_int(byte, 8)
         if self.use_metadata == 1:
-            pass
-            # TODO self.m_bits |= 0 << self.count
+            self.pack_field_int(0, 8)
         #  byte b
         #  foreach (value[index]):
         #    if(self.big_endian == 0)
@@ -535,24 +531,18 @@ class UVMPacker(object):
 
         byte_arr = bytearray()
         #unpack_string = 0
-        curr_byte = (self.m_bits >> self.count) & 0xFF
-        while (self.enough_bits(8,"string", is_error=False) and
-              ((curr_byte != 0) or (is_null_term == 0)) and
-              ((i < num_chars) or (is_null_term == 1))):
-            # silly, because cannot append byte/char to string
-            #unpack_string = unpack_string + " "
-            #if self.big_endian == 0:
-            #    unpack_string[i] = self.m_bits[count +: 8]
-            #else:
-            #    for(int j=0; j<8; ++j)
-            #        b[7-j] = self.m_bits[count+j]
-            #  unpack_string[i] = b
+        while self.enough_bits(8,"string", is_error=False):
+            if is_null_term == 0 and i >= num_chars:
+                break
+            curr_byte = self.unpack_field_int(8)
+            if is_null_term == 1 and curr_byte == 0:
+                break
             i += 1
-            byte_arr.insert(0, curr_byte)
-            self.count += 8
-            curr_byte = (self.m_bits >> self.count) & 0xFF
-        if self.enough_bits(8,"string", is_error=False):
-            self.count += 8
+            byte_arr.append(curr_byte)
+        # a string of known length is followed by its terminator only with metadata
+        if is_null_term == 0 and self.use_metadata == 1:
+            if self.enough_bits(8,"string", is_error=False):
+                self.count += 8
         return byte_arr.decode()
         #return unpack_string
 
-- 
2.43.0


From dd84005f394ed59418735b74d3c6d7d777f7301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 028/178] fix: unpacking bits must not lose the leading zeros
 of the last field

---
 src/uvm/base/uvm_packer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 1a432bc..1bcb5c1 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -31,6 +31,7 @@ from typing import List
 
 SIZEOF_INT = 32
 MASK_INT = 0xFFFFFFFF
+PACKER_MAX_BITS = 4096 * 8
 
 
 class UVMPacker(object):
@@ -689,7 +690,8 @@ class UVMPacker(object):
         #      self.m_bits[i] = bitstream[i]
         #
         self.m_bits = bitstream
-        self.m_packed_size = len(bin(self.m_bits)) - 2
+        # leading zeros are not visible in an int, they may be part of the fields
+        self.m_packed_size = max(self.m_bits.bit_length(), PACKER_MAX_BITS)
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
-- 
2.43.0


From dbb576cd05104f86da2f87cf27ccc06ae3065534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 029/178] fix: unpack_bytes and unpack_ints of an object need
 put_bytes and put_ints

---
 src/uvm/base/uvm_packer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 1bcb5c1..eb4978d 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -695,7 +695,23 @@ class UVMPacker(object):
         self.count = 0
 
     #  extern def put_bytes(self,ref byte unsigned bytestream[]):
+    def put_bytes(self, bytestream):
+        self.m_put_words(bytestream, 8)
+
     #  extern def put_ints(self,ref int unsigned intstream[]):
+    def put_ints(self, intstream):
+        self.m_put_words(intstream, SIZEOF_INT)
+
+    def m_put_words(self, stream, word_size):
+        """ Inverse of get_bytes/get_ints """
+        self.m_bits = 0
+        for i in range(len(stream)):
+            word = stream[i] & ((1 << word_size) - 1)
+            if self.big_endian:
+                word = self.flip_bit_order(word, word_size)
+            self.m_bits |= word << (i * word_size)
+        self.m_packed_size = len(stream) * word_size
+        self.count = 0
 
 
     def set_packed_size(self):
-- 
2.43.0


From 1238b48361d53e648bef60418cb082746e5af02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 030/178] fix: packing of byte and int arrays must honour the
 size and the current position

---
 src/uvm/base/uvm_packer.py | 47 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index eb4978d..47f024e 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -209,12 +209,7 @@ class UVMPacker(object):
                 size, max_size))
             return
         else:
-            for i in range(len(value)):
-                byte = value[i]
-                if self.big_endian == 1:
-                    byte = self.flip_bit_order(value[len(value)-1-i], 8)
-                self.m_bits |= byte << self.count
-                self.count += 8
+            self.pack_field(self.m_join_words(value, 8), size)
 
 
     #  // Function: pack_ints
@@ -257,13 +252,7 @@ class UVMPacker(object):
                     size, max_size))
             return
         else:
-            for i in range(len(value)):
-                int_num = value[i]
-                if self.big_endian == 1:
-                    int_num = self.flip_bit_order(value[len(value)-1-i],
-                        SIZEOF_INT)
-                self.m_bits |= int_num << self.count
-                self.count += SIZEOF_INT
+            self.pack_field(self.m_join_words(value, SIZEOF_INT), size)
 
 
     #  // Function: pack_string
@@ -449,14 +438,7 @@ class UVMPacker(object):
             return []
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
-                for b in range(len(value)):
-                    byte = (self.m_bits >> b * 8) & 0xFF
-                    if self.big_endian == 1:
-                        byte = self.flip_bit_order(byte, 8)
-                        value[len(value)-1-b] = byte
-                    else:
-                        value[b] = byte
+                self.m_split_words(value, 8, size)
             return value
 
 
@@ -500,14 +482,7 @@ class UVMPacker(object):
             return
         else:
             if self.enough_bits(size, "integral"):
-                self.count += size
-                for i in range(len(value)):
-                    int_num = (self.m_bits >> i * SIZEOF_INT) & 0xFFFFFFFF
-                    if self.big_endian == 1:
-                        int_num = self.flip_bit_order(int_num, SIZEOF_INT)
-                        value[len(value)-1-i] = int_num
-                    else:
-                        value[i] = int_num
+                self.m_split_words(value, SIZEOF_INT, size)
             return value
 
 
@@ -740,6 +715,20 @@ class UVMPacker(object):
         self.m_bits = 0
         self.m_packed_size = 0
 
+    def m_join_words(self, value, word_size) -> int:
+        bits = 0
+        for i in range(len(value)):
+            bits |= (value[i] & ((1 << word_size) - 1)) << (i * word_size)
+        return bits
+
+    def m_split_words(self, value, word_size, size) -> None:
+        """ Unpacks the low size bits of the array, its other bits stay """
+        mask = (1 << size) - 1
+        bits = self.m_join_words(value, word_size) & ~mask
+        bits |= self.unpack_field(size) & mask
+        for i in range(len(value)):
+            value[i] = (bits >> (i * word_size)) & ((1 << word_size) - 1)
+
     def flip_bit_order(self, value, size: int) -> int:
         flipped = 0x0
         num_bits = value.bit_length()
-- 
2.43.0


From a685d498d46a62201383cf37deacc7af927541a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 031/178] fix: packing of None objects and of the object header
 with metadata

---
 src/uvm/base/uvm_packer.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/uvm_packer.py b/src/uvm/base/uvm_packer.py
index 47f024e..9dd1509 100644
--- a/src/uvm/base/uvm_packer.py
+++ b/src/uvm/base/uvm_packer.py
@@ -322,6 +322,11 @@ class UVMPacker(object):
     #
     #  extern def pack_object(self,uvm_object value):
     def pack_object(self, value) -> None:
+        if value is None or self.policy == UVM_REFERENCE:
+            if self.use_metadata == 1:
+                self.count += 4
+            return
+
         if value in value._m_uvm_status_container.cycle_check:
             uvm_warning("CYCFND", sv.sformatf("Cycle detected for object @%0d during pack",
                 value.get_inst_id()))
@@ -329,20 +334,14 @@ class UVMPacker(object):
 
         value._m_uvm_status_container.cycle_check[value] = 1
 
-        if((self.policy != UVM_REFERENCE) and value is not None):
-            if self.use_metadata == 1:
-                pass
-                #self.m_bits[count +: 4] = 1
-                #count += 4; // to better debug when display packed bits in hexadecimal
-
-            self.scope.down(value.get_name())
-            value._m_uvm_field_automation(None, UVM_PACK,"")
-            value.do_pack(self)
-            self.scope.up()
-        elif self.use_metadata == 1:
-            pass
-            #self.m_bits[count +: 4] = 0
-            #count += 4
+        if self.use_metadata == 1:
+            self.m_bits |= 1 << self.count
+            self.count += 4  # to better debug when display packed bits in hexadecimal
+
+        self.scope.down(value.get_name())
+        value._m_uvm_field_automation(None, UVM_PACK,"")
+        value.do_pack(self)
+        self.scope.up()
         del value._m_uvm_status_container.cycle_check[value]
 
 
@@ -559,14 +558,16 @@ class UVMPacker(object):
     def unpack_object(self, value):
         is_non_null = 1
 
-        if value in value._m_uvm_status_container.cycle_check:
+        if (value is not None and
+                value in value._m_uvm_status_container.cycle_check):
             uvm_warning("CYCFND", sv.sformatf(
                 "Cycle detected for object @%0d during unpack", value.get_inst_id()))
             return
-        value._m_uvm_status_container.cycle_check[value] = 1
+        if value is not None:
+            value._m_uvm_status_container.cycle_check[value] = 1
 
         if self.use_metadata == 1:
-            is_non_null = get_bits(self.m_bits, self.count, 4) != 0  # [count +: 4]
+            is_non_null = (self.m_bits >> self.count) & 0xF != 0  # [count +: 4]
             self.count += 4
 
         # NOTE- policy is a ~pack~ policy, not unpack policy;
@@ -584,7 +585,8 @@ class UVMPacker(object):
                 #       this does not nullify argument; need to pass obj by ref
         elif ((is_non_null != 0) and (value is None)):
              uvm_error("UNPOBJ","cannot unpack into None object")
-        del value._m_uvm_status_container.cycle_check[value]
+        if value is not None:
+            del value._m_uvm_status_container.cycle_check[value]
 
 
     #  // Function: get_packed_size
-- 
2.43.0


From 008ebb6d9fe5a9b65cc56d7c446f21b9fbf94af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 032/178] fix: fields of a derived class must not be added to
 its base class

---
 src/uvm/macros/uvm_object_defines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 03656bb..00f1352 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -121,9 +121,10 @@ def uvm_object_utils_end(T):
 
 def uvm_field_utils_start(T):
     # Create static member containers for var names and masks
-    if not hasattr(T, "_m_uvm_field_names"):
+    # A derived class has its own, the base class handles its fields itself
+    if "_m_uvm_field_names" not in T.__dict__:
         setattr(T, "_m_uvm_field_names", [])
-    if not hasattr(T, "_m_uvm_field_masks"):
+    if "_m_uvm_field_masks" not in T.__dict__:
         setattr(T, "_m_uvm_field_masks", {})
 
     def _m_uvm_field_automation(self, rhs, what__, str__):
-- 
2.43.0


From 385a4bc1d60a82d41e99266eac2b5cf7137eed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 033/178] fix: compare must notice string, None and mixed-type
 differences and honour the size

---
 src/uvm/base/uvm_comparer.py         |  6 ++----
 src/uvm/macros/uvm_object_defines.py | 17 +++++++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 0651039..3710c65 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -169,8 +169,7 @@ class UVMComparer:
         """
         mask = 0
         msg = ""
-        if size <= 64:
-            return self.compare_field_int(name, lhs, rhs, size, radix)
+        return self.compare_field_int(name, lhs, rhs, size, radix)
         #
         #    mask = -1
         #    mask >>= (UVM_STREAMBITS-size)
@@ -237,8 +236,7 @@ class UVMComparer:
         """
         mask = 0x0
         msg = ""
-        mask = -1
-        mask >>= (64-size)
+        mask = (1 << size) - 1
         if (lhs & mask) != (rhs & mask):
             UVMObject._m_uvm_status_container.scope.set_arg(name)
             msg = "lhs = {} : rhs = {}".format(lhs, rhs)
diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 00f1352..86de89c 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -163,15 +163,20 @@ def uvm_field_utils_start(T):
                     v_attr_self = getattr(self, v)
                     # Try simple equality first
                     if v_attr_rhs != v_attr_self:
-                        if isinstance(v_attr_self, int):
-                            T_cont.comparer.compare_field(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif isinstance(v_attr_self, str):
+                        if isinstance(v_attr_self, int) and isinstance(v_attr_rhs, int):
+                            T_cont.comparer.compare_field(v, v_attr_self, v_attr_rhs,
+                                1 + max(v_attr_self.bit_length(), v_attr_rhs.bit_length()))
+                        elif isinstance(v_attr_self, str) and isinstance(v_attr_rhs, str):
                             T_cont.comparer.compare_string(v,
-                                v_attr_self, v_attr_rhs, 0)
-                        elif hasattr(v_attr_self, "compare"):
+                                v_attr_self, v_attr_rhs)
+                        elif (isinstance(v_attr_self, (UVMObject, type(None))) and
+                                isinstance(v_attr_rhs, (UVMObject, type(None)))):
                             T_cont.comparer.compare_object(v,
                                 v_attr_self, v_attr_rhs)
+                        else:
+                            T_cont.scope.set_arg(v)
+                            T_cont.comparer.print_msg("lhs = {} : rhs = {}".format(
+                                v_attr_self, v_attr_rhs))
 
                         if (T_cont.comparer.result and
                                 T_cont.comparer.show_max <= T_cont.comparer.result):
-- 
2.43.0


From 9e47bd09d90a20f98a0d854da473adf861059699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 034/178] fix: copy and compare with an object of another type
 must not raise

---
 src/uvm/macros/uvm_object_defines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 86de89c..a27fa01 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -150,6 +150,8 @@ def uvm_field_utils_start(T):
             for v in vals:
                 mask_v = masks[v]
                 if not(mask_v & UVM_NOCOPY) and (mask_v & UVM_COPY != 0):
+                    if not hasattr(rhs, v):
+                        continue  # rhs is not of this type
                     v_attr = getattr(rhs, v)
                     if hasattr(v_attr, "clone"):
                         setattr(self, v, v_attr.clone())
@@ -159,6 +161,8 @@ def uvm_field_utils_start(T):
             for v in vals:
                 mask_v = masks[v]
                 if not(mask_v & UVM_NOCOMPARE) and (mask_v & UVM_COMPARE != 0):
+                    if not hasattr(rhs, v):
+                        continue  # rhs is not of this type
                     v_attr_rhs = getattr(rhs, v)
                     v_attr_self = getattr(self, v)
                     # Try simple equality first
-- 
2.43.0


From f738596be6a9353d7d4071fea75104b2207f82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 035/178] fix: copy must copy the handle of a UVM_REFERENCE
 field

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index a27fa01..b9d737b 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -153,7 +153,7 @@ def uvm_field_utils_start(T):
                     if not hasattr(rhs, v):
                         continue  # rhs is not of this type
                     v_attr = getattr(rhs, v)
-                    if hasattr(v_attr, "clone"):
+                    if hasattr(v_attr, "clone") and not mask_v & UVM_REFERENCE:
                         setattr(self, v, v_attr.clone())
                     else:
                         setattr(self, v, v_attr)
-- 
2.43.0


From deb7abde32400f6b4b0d6646f0dd589aa3d4cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 036/178] fix: object miscompares must be reported with the
 comparer settings, also against None

---
 src/uvm/base/uvm_comparer.py | 22 +++++++++++-----------
 src/uvm/base/uvm_object.py   |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/uvm/base/uvm_comparer.py b/src/uvm/base/uvm_comparer.py
index 3710c65..7d3f143 100644
--- a/src/uvm/base/uvm_comparer.py
+++ b/src/uvm/base/uvm_comparer.py
@@ -437,21 +437,21 @@ class UVMComparer:
         root = cs.get_root()
 
         self.result += 1
+        lhs_id = 0
+        if lhs is not None:
+            lhs_id = lhs.get_inst_id()
+        rhs_id = 0
+        if rhs is not None:
+            rhs_id = rhs.get_inst_id()
         if (self.result <= self.show_max):
-            lhs_id = 0
-            if lhs is not None:
-                lhs_id = lhs.get_inst_id()
-            rhs_id = 0
-            if rhs is not None:
-                rhs_id = rhs.get_inst_id()
             root.uvm_report(self.sev, "MISCMP",
                 sv.sformatf("Miscompare for %0s: lhs = @%0d : rhs = @%0d",
-                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id,
-                self.verbosity, "`uvm_file", "`uvm_line"))
+                UVMObject._m_uvm_status_container.scope.get(), lhs_id, rhs_id),
+                self.verbosity, "`uvm_file", "`uvm_line")
 
-            self.miscompares = sv.sformatf("%s%s: lhs = @%0d : rhs = @%0d",
-                self.miscompares, UVMObject._m_uvm_status_container.scope.get(),
-                lhs_id, rhs_id)
+        self.miscompares = sv.sformatf("%s%s: lhs = @%0d : rhs = @%0d\n",
+            self.miscompares, UVMObject._m_uvm_status_container.scope.get(),
+            lhs_id, rhs_id)
 
 
     #  // init ??
diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..443f702 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -620,7 +620,7 @@ class UVMObject(sv_obj):
                      cls._m_uvm_status_container.scope.get(),
                       self.get_inst_id()),
                       cls._m_uvm_status_container.comparer.verbosity)
-                done = 1
+            done = 1
 
         if(not done and comparer.compare_map.exists(rhs)):
             if(comparer.compare_map[rhs] != self):
-- 
2.43.0


From d84da5a9a186f479ad43a4d6d031ccc549982b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 037/178] fix: the radix of a field must be used for printing
 it

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index b9d737b..66a71ef 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -195,7 +195,7 @@ def uvm_field_utils_start(T):
 
                     if isinstance(v_attr_self, int):
                         T_cont.printer.print_field(v, v_attr_self,
-                            sv.bits(v_attr_self), (what__ & UVM_RADIX))
+                            sv.bits(v_attr_self), (mask_v & UVM_RADIX))
                     elif isinstance(v_attr_self, UVMObject):
                         if mask_v & UVM_REFERENCE:
                             T_cont.printer.print_object_header(v, v_attr_self)
-- 
2.43.0


From e852005355d098b5e1bf93bd7e0264edc5cbb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 038/178] fix: octal numbers must be printed in octal

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c76d5f5..c822c60 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -204,7 +204,7 @@ def num_with_radix(radix, radix_str: str, value) -> str:
     if radix == UVM_BIN:
         return "{}{:b}".format(radix_str, value)
     if radix == UVM_OCT:
-        return "{}{}".format(radix_str, value)
+        return "{}{:o}".format(radix_str, value)
     if radix == UVM_UNSIGNED:
         return "{}{}".format(radix_str, value)
     if radix == UVM_STRING:
-- 
2.43.0


From 0fb3e01457b0b4358d32869e7ca1c85274b7a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 039/178] fix: print_field_int must print negative decimal
 values

---
 src/uvm/base/uvm_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_misc.py b/src/uvm/base/uvm_misc.py
index c822c60..83b244c 100644
--- a/src/uvm/base/uvm_misc.py
+++ b/src/uvm/base/uvm_misc.py
@@ -105,7 +105,7 @@ def uvm_integral_to_string(value, size, radix=UVM_NORADIX, radix_str="") -> str:
         str:
     """
     # sign extend & don't show radix for negative values
-    if radix == UVM_DEC and (value >> (size-1)) == 1:
+    if radix == UVM_DEC and (value >> (size-1)):
         return "{}".format(value)
 
     # TODO $countbits(value,'z) would be even better
-- 
2.43.0


From 26a3e8cf0d012ec3b959ffa98f1b84f6a85b0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 040/178] fix: printing an array element object must not leave
 the array scope

---
 src/uvm/base/uvm_printer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index bc3d587..b754032 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -243,7 +243,6 @@ class UVMPrinter():
                 # Handle children of the comp
                 #if($cast(comp, value)) begin
                 comp = value
-                name = ""
                 if hasattr(comp, "has_first_child"):
                     if comp.has_first_child():
                         child_comp = comp.get_first_child()
-- 
2.43.0


From f71f27a950f3921e4ed7f121b8b341f82e9e7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 041/178] fix: table and tree printers must indent nested rows
 like the other columns

---
 src/uvm/base/uvm_printer.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index b754032..33f6f08 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -701,16 +701,16 @@ class UVMTablePrinter(UVMPrinter):
                 head_typ = ""
                 head_sz = ""
                 if self.knobs.identifier:
-                    dashes = dash[1:self.m_max_name+2]
-                    header = "Name" + space[1:self.m_max_name-2]
+                    dashes = dash[0:self.m_max_name+2]
+                    header = "Name" + space[0:self.m_max_name-2]
                 if self.knobs.type_name is True:
-                    dashes = dashes + dash[1:self.m_max_type+2]
-                    header = header + "Type" + space[1:self.m_max_type-2]
+                    dashes = dashes + dash[0:self.m_max_type+2]
+                    header = header + "Type" + space[0:self.m_max_type-2]
                 if self.knobs.size:
-                    dashes = dashes + dash[1:self.m_max_size+2]
-                    header = header + "Size" + space[1:self.m_max_size-2]
-                dashes = dashes + dash[1:self.m_max_value] + linefeed
-                header = header + "Value" + space[1:self.m_max_value-5] + linefeed
+                    dashes = dashes + dash[0:self.m_max_size+2]
+                    header = header + "Size" + space[0:self.m_max_size-2]
+                dashes = dashes + dash[0:self.m_max_value] + linefeed
+                header = header + "Value" + space[0:self.m_max_value-5] + linefeed
 
                 s = s + dashes + header + dashes
             else:
@@ -722,14 +722,14 @@ class UVMTablePrinter(UVMPrinter):
             if user_format == "":
                 row_str = ""
                 if self.knobs.identifier:
-                    row_str = (space[1:row.level * self.knobs.indent] + row.name
-                        + space[1:self.m_max_name-len(row.name)-(row.level*self.knobs.indent)+2])
+                    row_str = (space[0:row.level * self.knobs.indent] + row.name
+                        + space[0:self.m_max_name-len(row.name)-(row.level*self.knobs.indent)+2])
                 if self.knobs.type_name:
                     row_str = (row_str + row.type_name
-                        + space[1:(self.m_max_type-len(row.type_name)+2)])
+                        + space[0:(self.m_max_type-len(row.type_name)+2)])
                 if self.knobs.size:
-                    row_str = row_str + row.size + space[1:self.m_max_size-len(row.size)+2]
-                s = s + row_str + row.val + space[1:self.m_max_value-len(row.val)] + linefeed
+                    row_str = row_str + row.size + space[0:self.m_max_size-len(row.size)+2]
+                s = s + row_str + row.val + space[0:self.m_max_value-len(row.val)] + linefeed
             else:
                 s = s + user_format + linefeed
 
@@ -794,7 +794,7 @@ class UVMTreePrinter(UVMPrinter):
             row = self.m_rows[i]
             user_format = self.format_row(row)
             if user_format == "":
-                indent_str = space[1:row.level * knobs.indent]
+                indent_str = space[0:row.level * knobs.indent]
 
                 # Name (id)
                 if knobs.identifier:
@@ -838,7 +838,7 @@ class UVMTreePrinter(UVMPrinter):
                     if (end_level < row.level):
                         indent_str = ""
                         for l in range(row.level-1, end_level-1, -1):
-                            indent_str = space[1:l * knobs.indent+1]
+                            indent_str = space[0:l * knobs.indent]
                             sep = ""
                             if len(knobs.separator) > 1:
                                 sep = str(knobs.separator[1])
-- 
2.43.0


From 308b029c0ec8bfafbe0da1e3e73dcbb0baf22d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 042/178] fix: an event with callbacks must trigger unless a
 callback vetoes it

---
 src/uvm/base/uvm_event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..50cbef9 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -331,7 +331,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
+                if tmp.pre_trigger(self, data):
+                    skip = True
         if skip is False:
             self.m_event.set(data)
             if self.callbacks.size() > 0:
-- 
2.43.0


From bf8ed29476a82c490d5933b71330925c5e51478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 043/178] fix: waiting for an event trigger must not return for
 a trigger of the past

---
 src/uvm/base/uvm_event.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 50cbef9..fbcdfa8 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -50,6 +50,7 @@ class UVMEventBase(UVMObject):
         """
         super().__init__(name)
         self.m_event = Event()
+        self.m_triggered_at = None  # time of the last trigger of m_event
         self.num_waiters = 0
         self.on = False
         self.on_event = Event("on_event_" + name)
@@ -144,8 +145,8 @@ class UVMEventBase(UVMObject):
 
         """
         self.num_waiters += 1
+        self.m_event.clear()  # A trigger of the past does not count
         await self.m_event.wait()
-        self.m_event.clear()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +156,11 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.m_triggered_at is not None and self.m_triggered_at == sv.realtime():
             return
         self.num_waiters += 1
-        await self.m_event.wait()
         self.m_event.clear()
+        await self.m_event.wait()
 
     def get_trigger_time(self):
         """
@@ -205,6 +206,7 @@ class UVMEventBase(UVMObject):
         if wakeup:
             self.m_event.set()
         self.m_event = Event()
+        self.m_triggered_at = None
         self.num_waiters = 0
         self.set_value("on", False)
         self.trigger_time = 0
@@ -335,6 +337,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
                     skip = True
         if skip is False:
             self.m_event.set(data)
+            self.m_triggered_at = sv.realtime()
             if self.callbacks.size() > 0:
                 for i in range(0, self.callbacks.size()):
                     #uvm_event_callback#(T) tmp=self.callbacks[i]
-- 
2.43.0


From afafb034bf449234d0852f74de8de2a3cba17700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 044/178] fix: a barrier must be constructible

---
 src/uvm/base/uvm_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..d012ea9 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
-- 
2.43.0


From f49f12992f8a77d6103869ffecca8fdde637d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 045/178] fix: the last waiter of a barrier must release the
 others

---
 src/uvm/base/uvm_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index d012ea9..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
-- 
2.43.0


From eb69a50124496fae9bbf2d9491f17fb4734c7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 046/178] fix: an event callback may be added in front of an
 empty list

---
 src/uvm/base/uvm_event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index fbcdfa8..ae03984 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -380,7 +380,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From ffe97d0e03859df9d9feeb7fd0e61605999215dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 047/178] fix: peek of a mailbox must wait until there is an
 item

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..77df3e0 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,7 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
-- 
2.43.0


From 50d0b87033bc8891c33e2ddbe1d97877a741b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 048/178] fix: num() of a mailbox must return the number of
 items

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index 77df3e0..5a9f616 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -152,4 +152,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
-- 
2.43.0


From 4db78b519a64c08c9e21be7b08739fba0bab61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 049/178] fix: peek of a FIFO must output the item once

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..1ff782c 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,7 +122,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
+        res = await self.m.peek()
         if t is not None:
             t.append(res)
         return res
-- 
2.43.0


From 60dbc6e765561f606d7ed616ea06d37437cae7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 050/178] fix: every item flushed from a FIFO must be sent to
 its get_ap

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 1ff782c..0e6c549 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -130,7 +130,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From 64123bd737b66927a1067e08f6beec94317ac90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 051/178] fix: the blocking transport interface must have a
 mask bit of its own

---
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
-- 
2.43.0


From c54244ced554f518166abc61a53ddf21407c1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 052/178] fix: an nb initiator socket must accept a separate
 implementation

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index cc2a03a..9ea2370 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -155,9 +155,9 @@ class UVMTLMNbInitiatorSocket(UVMTLMNbInitiatorSocketBase):
     def __init__(self, name, parent, imp=None):
         super().__init__(name, parent)
 
-        if (imp is None):
+        if imp is None:
             imp = parent
-        else:
+        if imp is None:
             uvm_error("UVM/TLM2/NOIMP", cat("nb_initiator socket ", name,
                                      " has no implementation"))
         self.bw_imp = UVMTLMNbTransportBwImp("bw_imp", imp)
-- 
2.43.0


From 5796d9c9a7c28b6d9f292c61b0e5c0a2ecccd6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 053/178] fix: nb passthrough sockets must connect the backward
 path

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index 9ea2370..1de2fc3 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -316,7 +316,13 @@ class UVMTLMNbPassthroughInitiatorSocket(UVMTLMNbPassthroughInitiatorSocketBase)
             # uvm_error_context(self.get_type_name(),
             #     "type mismatch in connect -- connection cannot be completed",
             #     self.get_comp())
-            pass
+            return
+
+        # The backward path goes in the opposite direction
+        if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
+            provider.bw_export.connect(self.bw_export)
+        else:
+            provider.bw_port.connect(self.bw_export)
 
 #//----------------------------------------------------------------------
 #// Class -- NODOCS -- uvm_tlm_nb_passthrough_target_socket
@@ -343,4 +349,7 @@ class UVMTLMNbPassthroughTargetSocket(UVMTLMNbPassthroughTargetSocketBase):
             # uvm_error_context(self.get_type_name(),
             #     "type mismatch in connect -- connection cannot be completed",
             #     self.get_comp())
-            pass
+            return
+
+        # The backward path goes in the opposite direction
+        provider.bw_port.connect(self.bw_port)
-- 
2.43.0


From 4567bd274912aec53d71f70e04f400945d9da7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 054/178] fix: item_done must wake up the sequence waiting for
 its item

---
 src/uvm/seq/uvm_sequencer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..29b0477 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -181,6 +181,8 @@ class UVMSequencer(UVMSequencerParamBase):
             t = t[0]
             self.m_wait_for_item_sequence_id = t.get_sequence_id()
             self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            # Wake up the sequence waiting in wait_for_item_done()
+            self.m_event_value_changed.set()
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From 6ff23b791a5335495e2811407a0af31c4b8807b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 055/178] fix: a driver must be able to wait for a sequence to
 become relevant

---
 src/uvm/seq/uvm_sequencer_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..4b12d4a 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1149,21 +1149,22 @@ class UVMSequencerBase(UVMComponent):
     async def _fork_first_proc(self, is_relevant_entries):
         started_forks = []
         #fork
-        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries))
+        relevant_forks = []
+        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries,
+            relevant_forks))
         started_forks.append(forked_proc1)
         # The other path in the fork is for any queue entry to change
-        forked_proc2 = self.m_wait_arb_not_equal()
+        forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
         started_forks.append(forked_proc2)
         ## await started_forks  # join_any
         await sv.fork_join_any(started_forks)
         # disable fork
-        for p in started_forks:
+        for p in started_forks + relevant_forks:
             p.kill()  # type: ignore
 
 
-    async def _fork_first_proc_sub_fork1(self, is_relevant_entries):
+    async def _fork_first_proc_sub_fork1(self, is_relevant_entries, fork_procs_join_none):
         # One path in fork is for any wait_for_relevant to return
-        fork_procs_join_none = []
         self.set_value('m_is_relevant_completed', False)
         for i in range(len(is_relevant_entries)):
             #fork
-- 
2.43.0


From 2beae8194f312614c994e3f360871c943e8285cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 056/178] fix: sequencer routes responses written to rsp_export

---
 src/uvm/seq/uvm_sequencer_param_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer_param_base.py b/src/uvm/seq/uvm_sequencer_param_base.py
index 2a12357..f7fe4db 100644
--- a/src/uvm/seq/uvm_sequencer_param_base.py
+++ b/src/uvm/seq/uvm_sequencer_param_base.py
@@ -345,7 +345,13 @@ class UVMSequencerParamBase(UVMSequencerBase):
 
     #  /* local */ extern virtual function void do_print (uvm_printer printer)
 
-    #  /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+    def analysis_write(self, t):
+        """
+         /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+        Args:
+            t:
+        """
+        self.put_response(t)
 
     def m_last_req_push_front(self, item):
         """
-- 
2.43.0


From 0dbe6d9eb6d45ea2c848f8f31e42cfe94ac9bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 057/178] fix: default sequences start with their phase and are
 killed when it ends

---
 src/uvm/seq/uvm_sequence_base.py  | 82 +++++++++++++------------------
 src/uvm/seq/uvm_sequencer_base.py | 53 ++++++++------------
 2 files changed, 55 insertions(+), 80 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..c5f6740 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -886,40 +886,29 @@ class UVMSequenceBase(UVMSequenceItem):
         return self.m_sequencer.has_lock(self)
 
 
-    #  // Function: kill
-    #  //
-    #  // This function will kill the sequence, and cause all current locks and
-    #  // requests in the sequence's default sequencer to be removed. The sequence
-    #  // state will change to UVM_STOPPED, and the post_body() and post_start() callback
-    #  // methods will not be executed.
-    #  //
-    #  // If a sequence has issued locks, grabs, or requests on sequencers other than
-    #  // the default sequencer, then care must be taken to unregister the sequence
-    #  // with the other sequencer(s) using the sequencer unregister_sequence()
-    #  // method.
-    #
-    #  function void kill()
-    #    if (m_sequence_process is not None) begin
-    #      // If we are not connected to a sequencer, then issue
-    #      // kill locally.
-    #      if (self.m_sequencer == None) begin
-    #        m_kill()
-    #        // We need to drop the objection if we raised it...
-    #        if (get_automatic_phase_objection()) begin
-    #           m_safe_drop_starting_phase("automatic phase objection")
-    #        end
-    #        return
-    #      end
-    #      // If we are attached to a sequencer, then the sequencer
-    #      // will clear out queues, and then kill this sequence
-    #      self.m_sequencer.kill_sequence(this)
-    #      // We need to drop the objection if we raised it...
-    #      if (get_automatic_phase_objection()) begin
-    #         m_safe_drop_starting_phase("automatic phase objection")
-    #      end
-    #      return
-    #    end
-    #  endfunction
+    def kill(self) -> None:
+        """
+        This function will kill the sequence, and cause all current locks and
+        requests in the sequence's default sequencer to be removed. The sequence
+        state will change to UVM_STOPPED, and the post_body() and post_start() callback
+        methods will not be executed.
+
+        If a sequence has issued locks, grabs, or requests on sequencers other than
+        the default sequencer, then care must be taken to unregister the sequence
+        with the other sequencer(s) using the sequencer unregister_sequence()
+        method.
+        """
+        if self.m_sequence_process is None:
+            return
+        # If we are not connected to a sequencer, then issue kill locally.
+        # Otherwise the sequencer will clear out queues, and then kill this sequence
+        if self.m_sequencer is None:
+            self.m_kill()
+        else:
+            self.m_sequencer.kill_sequence(self)
+        # We need to drop the objection if we raised it...
+        if self.get_automatic_phase_objection():
+            self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -933,19 +922,18 @@ class UVMSequenceBase(UVMSequenceItem):
         return
 
 
-    #  function void m_kill()
-    #    do_kill()
-    #    foreach(children_array[i]) begin
-    #       i.kill()
-    #    end
-    #    if (m_sequence_process is not None) begin
-    #      m_sequence_process.kill
-    #      m_sequence_process = None
-    #    end
-    #    m_sequence_state = UVM_STOPPED
-    #    if ((self.m_parent_sequence is not None) && (self.m_parent_sequence.children_array.exists(this)))
-    #      self.m_parent_sequence.children_array.delete(this)
-    #  endfunction
+    def m_kill(self) -> None:
+        self.do_kill()
+        for child in list(self.children_array):
+            child.kill()
+        process = self.m_sequence_process
+        self.m_sequence_process = None
+        self.m_sequence_state = UVM_STOPPED
+        if (self.m_parent_sequence is not None and
+                self in self.m_parent_sequence.children_array):
+            del self.m_parent_sequence.children_array[self]
+        if process is not None:
+            process.kill()
 
 
     """
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 4b12d4a..088595b 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -30,8 +30,8 @@ from .uvm_sequence_base import UVMSequenceBase
 from ..base.sv import sv, process
 from ..base.uvm_component import UVMComponent
 # from ..base.uvm_event import UVMEvent
-from ..base.uvm_resource import UVMResourcePool, UVMResource
-from ..base.uvm_config_db import UVMConfigDb
+from ..base.uvm_resource import UVMResourcePool
+from ..base.uvm_factory import UVMObjectWrapper
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
@@ -284,42 +284,29 @@ class UVMSequencerBase(UVMComponent):
         for i in range(len(rq)):
             if seq is not None:
                 break
-            rsrc = rq[i]  # uvm_resource_base
-            sbr = []  # type: List[UVMResource]
-            owr = []  # type: List[UVMResource]
-
-            # uvm_config_db#(uvm_sequence_base)?
-            # Priority is given to uvm_sequence_base because it is a specific sequence instance
-            # and thus more specific than one that is dynamically created via the
-            # factory and the object wrapper.
-            if (sv.cast(sbr, rsrc, UVMConfigDb) and sbr[0] is not None):
-                seq = sbr[0].read(self)
-                if seq is None:
-                    uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
+            value = rq[i].read(self)
 
-            # uvm_config_db#(uvm_object_wrapper)?
-            elif (sv.cast(owr, rsrc, UVMConfigDb) and owr is not None):
-                wrapper = None  # uvm_object_wrapper
-                wrapper = owr[0].read(self)
-                if wrapper is None:
-                    uvm_info("UVM/SQR/PH/DEF/OW/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
+            # Explicitly disabled?
+            if value is None:
+                uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
+                        + phase.get_name() + "' explicitly disabled", UVM_FULL)
+                await uvm_zero_delay()
+                return
+
+            # A specific sequence instance?
+            if isinstance(value, UVMSequenceBase):
+                seq = value
 
-                new_obj = f.create_object_by_type(wrapper, self.get_full_name(),
-                        wrapper.get_type_name())
-                seq_arr = []
-                if not(sv.cast(seq_arr, new_obj, UVMSequence) or seq_arr[0] is None):
+            # A sequence type (object wrapper)?
+            elif isinstance(value, UVMObjectWrapper):
+                new_obj = f.create_object_by_type(value, self.get_full_name(),
+                        value.get_type_name())
+                if not isinstance(new_obj, UVMSequenceBase):
                     uvm_warning("PHASESEQ", "Default sequence for phase '" +
-                            phase.get_name() + "' %s is not a sequence type")
+                            phase.get_name() + "' is not a sequence type")
                     await uvm_zero_delay()
                     return
-                else:
-                    seq = seq_arr[0]
+                seq = new_obj
 
         if seq is None:
             uvm_info("PHASESEQ", "No default phase sequence for phase '"
-- 
2.43.0


From 3ba1bf7b5b1beaddd913462d230d46af1fe48d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 058/178] fix: predicting with byte enables that exclude a
 field must skip the field

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..54d6cde 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1265,7 +1265,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
-- 
2.43.0


From c0d43010e149f87c0d0430111f5c8be3ac540ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 059/178] fix: bus accesses through an adapter that provides
 responses

---
 src/uvm/reg/uvm_reg_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..600f47d 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1429,12 +1429,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
                     #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1578,11 +1578,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
-- 
2.43.0


From 60db4ce9b7807888a5a93b2f09b349a6ad0e5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 060/178] fix: write-only fields must not be compared with the
 value read

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..e738968 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1351,7 +1351,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1367,7 +1367,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
-- 
2.43.0


From 1c0e998c619698c47d6b15e46a32fd842f4a47d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 061/178] fix: check-on-read must compare with the mirrored
 value

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index e738968..3dcee64 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1634,7 +1634,7 @@ class UVMReg(UVMObject):
             bkdr = self.get_backdoor()
             _map = UVMRegMap.backdoor()
             if _map.get_check_on_read():
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             if (bkdr is not None):
                 bkdr.read(rw)
@@ -1692,7 +1692,7 @@ class UVMReg(UVMObject):
             self.m_is_busy = True
 
             if (rw.local_map.get_check_on_read()):
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             map_info = arr_map_info[0]
             #  ...VIA USER FRONTDOOR
-- 
2.43.0


From f18c8e9ee4d5e5f40d322124f547365e6cdf7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 062/178] fix: update() must return a status when no update is
 needed

---
 src/uvm/reg/uvm_reg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 3dcee64..ee8b10f 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1052,6 +1052,7 @@ class UVMReg(UVMObject):
         # status = UVM_IS_OK
 
         if self.needs_update() is False:
+            status.append(UVM_IS_OK)
             return
 
         # Concatenate the write-to-update values from each field
-- 
2.43.0


From 57f62419fb9b142cc33e09b50f422c04e719044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 063/178] fix: mirror() must not check the value of a failed
 read nor keep the register locked

---
 src/uvm/reg/uvm_reg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index ee8b10f..d4cd1a6 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1127,6 +1127,8 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            status.append(UVM_NOT_OK)
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
@@ -1137,7 +1139,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[0] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
-- 
2.43.0


From 64a31cfc7afea44886938b5fd97e9fa8de6adf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 064/178] fix: a read-write field is write-only through a
 write-only map

---
 src/uvm/reg/uvm_reg_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 54d6cde..b9f1a2b 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
             if field_access == 'RW' or field_access == 'WO':
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
-- 
2.43.0


From f39b0552e409c495c6fac90792363116fe074be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 065/178] fix: addresses of a wide register below several map
 levels must not repeat

---
 src/uvm/reg/uvm_reg_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 600f47d..168be12 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1108,6 +1108,7 @@ class UVMRegMap(UVMObject):
         bus_width = self.get_n_bytes(UVM_NO_HIER)
         up_map = None  # uvm_reg_map
         local_addr = []
+        addr.clear()
         multiplier = 1
         if self.m_byte_addressing:
             multiplier = bus_width
-- 
2.43.0


From f6ace58d7f7850f72c0126a7d5cc26103d973921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 066/178] fix: memory address checks must not crash on overlaps
 or one-word memories

---
 src/uvm/reg/uvm_reg_map.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 168be12..44f5211 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -152,10 +152,10 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
-                                "maps to same address as memory '" +
+                                " maps to same address as memory '" +
                                 top_map.m_mems_by_offset[rr].get_full_name()
                                 + "': " + b))
                 self.m_regs_info[rg].addr = addrs
@@ -189,7 +189,9 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                stride = 0
+                if mem.get_size() > 1:
+                    stride = (max2 - min2) // (mem.get_size() - 1)
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
@@ -204,7 +206,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]", min1, max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
-- 
2.43.0


From 7d5709b73d4237e82094d7245d603883307d5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 067/178] fix: adding an unrelated submap must report an error,
 not crash

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 44f5211..0973333 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -490,8 +490,8 @@ class UVMRegMap(UVMObject):
         if child_blk is None:
             uvm_error("RegModel", ("Submap '" + child_map.get_full_name()
                 + "' may not be added to this address map, '"
-                + self.get_full_name(),"', as the submap's parent block, '"
-                + child_blk.get_full_name()
+                + self.get_full_name() + "', as the submap's parent block, '"
+                + child_map.get_parent().get_full_name()
                 + "', is neither this map's parent block nor a descendent of this map's parent block, '"
                 + self.m_parent.get_full_name() + "'"))
             return
-- 
2.43.0


From 65e7471c0c070fb94e3854d7621e2513a68035d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 068/178] fix: set_offset() to or from unmapped must update the
 address map

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 0973333..8386c5e 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -671,7 +671,7 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
+            if not info.unmapped:
                 for addr in info.addr:
                     if addr not in top_map.m_regs_by_offset_wo:
                         del top_map.m_regs_by_offset[addr]
@@ -732,7 +732,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
-- 
2.43.0


From 864a1596dc69acdada04d54f4ded5855c8a2554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 069/178] fix: a register write must unregister its temporary
 parent sequence

---
 src/uvm/reg/uvm_reg_map.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 8386c5e..02fe11a 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1651,11 +1651,8 @@ class UVMRegMap(UVMObject):
             uvm_debug(self, 'do_write', 'do_bus_write because adapter exists')
             await self.do_bus_write(rw, sequencer, adapter)
 
-        # TODO
-        #  if (tmp_parent_seq is not None)
-        #    sequencer.m_sequence_exiting(tmp_parent_seq)
-        #
-        #endtask
+        if tmp_parent_seq is not None:
+            sequencer.m_sequence_exiting(tmp_parent_seq)
 
 
     async def do_read(self, rw: UVMRegItem) -> None:
-- 
2.43.0


From d94a10e6c2562a5918ba95198cd0e9721d28b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 070/178] fix: writing the read-only or reading the write-only
 register of a shared address is an error

---
 src/uvm/reg/uvm_reg_cbs.py | 77 +++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 47 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..b715b97 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -27,7 +27,8 @@ from cocotb.triggers import Timer
 
 from ..base.uvm_callback import UVMCallback, UVMCallbackIter, UVMCallbacks
 from ..base.uvm_globals import uvm_zero_delay
-from ..macros import uvm_object_utils
+from ..macros import uvm_error, uvm_object_utils
+from .uvm_reg_model import UVM_FIELD, UVM_IS_OK, UVM_NOT_OK
 
 #//------------------------------------------------------------------------------
 #// Title: Register Callbacks
@@ -407,29 +408,20 @@ class UVMRegReadOnlyCbs(UVMRegCbs):
 
     #
     #
-    #   // Function: pre_write
-    #   //
-    #   // Produces an error message and sets status to <UVM_NOT_OK>.
-    #   //
-    #   virtual task pre_write(uvm_reg_item rw)
-    #      string name = rw.element.get_full_name()
-    #
-    #      if (rw.status != UVM_IS_OK)
-    #         return
-    #
-    #      if (rw.element_kind == UVM_FIELD) begin
-    #         uvm_reg_field fld
-    #         uvm_reg rg
-    #         $cast(fld, rw.element)
-    #         rg = fld.get_parent()
-    #         name = rg.get_full_name()
-    #      end
-    #
-    #      `uvm_error("UVM/REG/READONLY",
-    #                 {name, " is read-only. Cannot call write() method."})
-    #
-    #      rw.status = UVM_NOT_OK
-    #   endtask
+    async def pre_write(self, rw):
+        """
+        Produces an error message and sets status to `UVM_NOT_OK`.
+        Args:
+            rw:
+        """
+        if rw.status != UVM_IS_OK:
+            return
+        elem = rw.element
+        if rw.element_kind == UVM_FIELD:
+            elem = rw.element.get_parent()
+        uvm_error("UVM/REG/READONLY", elem.get_full_name()
+            + " is read-only. Cannot call write() method.")
+        rw.status = UVM_NOT_OK
     #
 
     m_me = None
@@ -491,29 +483,20 @@ class UVMRegWriteOnlyCbs(UVMRegCbs):
         super().__init__(name)
 
 
-    #   // Function: pre_read
-    #   //
-    #   // Produces an error message and sets status to <UVM_NOT_OK>.
-    #   //
-    #   virtual task pre_read(uvm_reg_item rw)
-    #      string name = rw.element.get_full_name()
-    #
-    #      if (rw.status != UVM_IS_OK)
-    #         return
-    #
-    #      if (rw.element_kind == UVM_FIELD) begin
-    #         uvm_reg_field fld
-    #         uvm_reg rg
-    #         $cast(fld, rw.element)
-    #         rg = fld.get_parent()
-    #         name = rg.get_full_name()
-    #      end
-    #
-    #      `uvm_error("UVM/REG/WRTEONLY",
-    #                 {name, " is write-only. Cannot call read() method."})
-    #
-    #      rw.status = UVM_NOT_OK
-    #   endtask
+    async def pre_read(self, rw):
+        """
+        Produces an error message and sets status to `UVM_NOT_OK`.
+        Args:
+            rw:
+        """
+        if rw.status != UVM_IS_OK:
+            return
+        elem = rw.element
+        if rw.element_kind == UVM_FIELD:
+            elem = rw.element.get_parent()
+        uvm_error("UVM/REG/WRTEONLY", elem.get_full_name()
+            + " is write-only. Cannot call read() method.")
+        rw.status = UVM_NOT_OK
 
 
     m_me = None
-- 
2.43.0


From eca0854c4c8734ebe0a2bcddb54c6327f19b592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 071/178] fix: register callbacks must run when a register is
 written

---
 src/uvm/reg/uvm_reg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index d4cd1a6..52abe9b 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1425,18 +1425,18 @@ class UVMReg(UVMObject):
         lsb = 0
 
         for i in range(len(self.m_fields)):
-            cbs = UVMRegFieldCbIter(self.m_fields[i])
+            field_cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             lsb = f.get_lsb_pos()
             msk = ((1 << f.get_n_bits() )-1) << lsb
             rw.value[0] = (value & msk) >> lsb
             await f.pre_write(rw)  # TODO yield?
-            cb = cbs.first()
+            cb = field_cbs.first()
             while cb is not None:
                 rw.element = f
                 rw.element_kind = UVM_FIELD
                 await cb.pre_write(rw)
-                cb = cbs.next()
+                cb = field_cbs.next()
             value = (value & ~msk) | (rw.value[0] << lsb)
 
         rw.element = self
-- 
2.43.0


From 779aa74ab44a8e976cb42ad6331e7f10a7622e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 072/178] fix: a write refused by a callback must release the
 register only once

---
 src/uvm/reg/uvm_reg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 52abe9b..8213d91 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1452,7 +1452,6 @@ class UVMReg(UVMObject):
 
         if rw.status != UVM_IS_OK:
             self.m_write_in_progress = False
-            await self.XatomicX(0)
             return
 
         if rw.path == UVM_BACKDOOR:
-- 
2.43.0


From 98fdeeb0eec821c162dc078a7bedbb406a73a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 073/178] fix: pre_read and post_write callbacks must be
 awaited

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 8213d91..cb18e18 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1537,7 +1537,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while cb is not None:
-                cb.post_write(rw)
+                await cb.post_write(rw)
                 cb = cbs.next()
             await f.post_write(rw)
 
@@ -1622,7 +1622,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
-- 
2.43.0


From 6d4dd1cf925a5059411da315da8e6d885a0f60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 074/178] fix: read() must return the readback data as modified
 by post_read

---
 src/uvm/reg/uvm_reg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index cb18e18..b8cd37d 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1724,28 +1724,30 @@ class UVMReg(UVMObject):
                 self.do_predict(rw, UVM_PREDICT_READ)
                 rw.status = status
 
-        value = rw.value[0]  # preserve
-
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
             cb.post_read(rw)
             cb = cbs.next()
         await self.post_read(rw)
+        value = rw.value[0]  # preserve
 
         # POST-READ CBS - FIELDS
         for i in range(len(self.m_fields)):
             cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
+            lsb = f.get_lsb_pos()
+            msk = (1 << f.get_n_bits()) - 1
             rw.element = f
             rw.element_kind = UVM_FIELD
-            rw.value[0] = (value >> f.get_lsb_pos()) & ((1 << f.get_n_bits())-1)
+            rw.value[0] = (value >> lsb) & msk
 
             cb = cbs.first()
             while (cb is not None):
                 cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
+            value = (value & ~(msk << lsb)) | ((rw.value[0] & msk) << lsb)
 
         rw.value[0] = value  # restore
         rw.element = self
-- 
2.43.0


From f69c1257263585a7e8e866711d6304578f842434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 075/178] fix: registers sharing several addresses must not be
 reported as duplicate callbacks

---
 src/uvm/reg/uvm_reg_cbs.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index b715b97..69ae54b 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -439,6 +439,12 @@ class UVMRegReadOnlyCbs(UVMRegCbs):
     @classmethod
     def add(cls, rg):
         flds = []  # uvm_reg_field [$]
+        cbs = UVMRegCbIter(rg)
+        cb = cbs.first()
+        while cb is not None:
+            if cb is cls.get():
+                return  # Already added, one register can share many addresses
+            cb = cbs.next()
         UVMRegCb.add(rg, cls.get())
         rg.get_fields(flds)
         for i in range(len(flds)):
@@ -515,6 +521,12 @@ class UVMRegWriteOnlyCbs(UVMRegCbs):
     @classmethod
     def add(cls, rg):
         flds = []  # uvm_reg_field [$]
+        cbs = UVMRegCbIter(rg)
+        cb = cbs.first()
+        while cb is not None:
+            if cb is cls.get():
+                return  # Already added, one register can share many addresses
+            cb = cbs.next()
         UVMRegCb.add(rg, cls.get())
         rg.get_fields(flds)
         for i in range(len(flds)):
-- 
2.43.0


From f872809aea91ea26be222593834f834d179ab86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 076/178] fix: a register accessed through one FIFO address
 does not overlap itself

---
 src/uvm/reg/uvm_reg_map.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 02fe11a..f38f127 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -118,8 +118,7 @@ class UVMRegMap(UVMObject):
                 rg_offset = self.m_regs_info[rg].offset
                 bus_width = self.get_physical_addresses(rg_offset, 0, rg.get_n_bytes(), addrs)
 
-                for i in range(len(addrs)):
-                    addr = addrs[i]
+                for addr in dict.fromkeys(addrs):  # A FIFO repeats its address
 
                     if addr in top_map.m_regs_by_offset:
                         rg2 = top_map.m_regs_by_offset[addr]
@@ -672,7 +671,7 @@ class UVMRegMap(UVMObject):
 
             # remove any existing cached addresses
             if not info.unmapped:
-                for addr in info.addr:
+                for addr in dict.fromkeys(info.addr):  # A FIFO repeats its address
                     if addr not in top_map.m_regs_by_offset_wo:
                         del top_map.m_regs_by_offset[addr]
                     else:
@@ -693,7 +692,7 @@ class UVMRegMap(UVMObject):
                 self.get_physical_addresses(offset,0,rg.get_n_bytes(),addrs)
 
                 # make sure they do not conflict with others
-                for adr in addrs:
+                for adr in dict.fromkeys(addrs):
                     addr = adr
 
                     if addr in top_map.m_regs_by_offset:
-- 
2.43.0


From 1bfbe129f036298bbe4e77af15fdda3fe3861ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 077/178] fix: memory read callbacks pre_read and post_read
 must run

---
 src/uvm/reg/uvm_mem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..b9967ff 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1086,7 +1086,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1129,7 +1129,7 @@ class UVMMem(UVMObject):
         await self.post_read(rw)
         cb = cbs.first()
         while cb is not None:
-            await cb.post_read(rw)
+            cb.post_read(rw)
             cb = cbs.next()
 
         # REPORT
-- 
2.43.0


From 917b358b817c8b4cd7035bb9cd9c718bf4860c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 078/178] fix: get_access() of a memory shared by several maps
 must return the access

---
 src/uvm/reg/uvm_mem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b9967ff..32a8d09 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -433,6 +433,7 @@ class UVMMem(UVMObject):
         else:
             uvm_error("RegModel", "Shared memory '" + self.get_full_name()
                 + "' is not shared in map '" + _map.get_full_name() + "'")
+        return get_access
 
     #   // Function: get_size
     #   //
-- 
2.43.0


From 2a71b29db147d5f26d0a49bc752579c321c891d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 079/178] fix: a refused memory access must end with
 UVM_NOT_OK, not crash

---
 src/uvm/reg/uvm_mem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 32a8d09..37a5a9d 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -940,7 +940,7 @@ class UVMMem(UVMObject):
 
                 if (_map_info_data.unmapped):
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + rw.local_map.get_full_name()
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
                     return 0
@@ -957,6 +957,7 @@ class UVMMem(UVMObject):
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
+                        rw.status = UVM_NOT_OK
                         return 0
 
             if rw.map is None:
@@ -973,7 +974,7 @@ class UVMMem(UVMObject):
         self.m_fname  = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_write()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_write()"):
             await uvm_zero_delay()
             return
 
@@ -1076,7 +1077,7 @@ class UVMMem(UVMObject):
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
 
-        if self.Xcheck_accessX(rw, arr_map_info, "burst_read()") is False:
+        if not self.Xcheck_accessX(rw, arr_map_info, "burst_read()"):
             await uvm_zero_delay()
             return
 
-- 
2.43.0


From b2de174871c0115cfc523d9491e7c308020bb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 080/178] fix: burst_read() must read as many words as the list
 given and terminate

---
 src/uvm/reg/uvm_mem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 37a5a9d..af6efe3 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -760,13 +760,14 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        # The size of 'value' is the size of the burst
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_READ
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = list(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
@@ -777,8 +778,7 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
+        value[:] = rw.value
 
 
     #   // Task: poke
-- 
2.43.0


From 36876db086c94cfb25062603aa6088fcd5676d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 081/178] fix: bus operations of a burst are plain reads and
 writes

---
 src/uvm/reg/uvm_reg_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index f38f127..722a8fa 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -31,7 +31,7 @@ from ..macros.uvm_object_defines import uvm_object_utils
 from .uvm_reg_model import (
     UVMRegMapAddrRange, UVM_BIG_ENDIAN, UVM_BIG_FIFO, UVM_FIELD, UVM_HIER,
     UVM_LITTLE_ENDIAN, UVM_LITTLE_FIFO, UVM_MEM, UVM_NOT_OK, UVM_NO_HIER,
-    UVM_REG)
+    UVM_READ, UVM_REG, UVM_WRITE)
 from .uvm_reg_item import UVMRegItem
 from .uvm_reg_item import UVMRegBusOp
 from ..seq import UVMSequenceBase
@@ -1392,7 +1392,7 @@ class UVMRegMap(UVMObject):
                         # rw_access.byte_en[z] = byte_en[curr_byte+z]
                         rw_access.byte_en = sv.set_bit(rw_access.byte_en, z, bit_val)
 
-                rw_access.kind    = rw.kind
+                rw_access.kind    = UVM_WRITE
                 rw_access.addr    = addrs[i]
                 rw_access.data    = data
                 #rw_access.n_bits  = (n_bits > bus_width*8) ? bus_width*8 : n_bits
@@ -1541,7 +1541,7 @@ class UVMRegMap(UVMObject):
                         bit_val = sv.get_bit(byte_en, curr_byte + z)
                         rw_access.byte_en = sv.set_bit(rw_access.byte_en, z, bit_val)
 
-                rw_access.kind = rw.kind
+                rw_access.kind = UVM_READ
                 rw_access.addr = addrs[i]
                 rw_access.data = curr_byte
                 rw_access.byte_en = byte_en
-- 
2.43.0


From 062fae2361d90c055a614cc09d5359a72a75f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 082/178] fix: a bus error inside a burst must end the burst
 and its status

---
 src/uvm/reg/uvm_reg_map.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 722a8fa..37357da 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1459,6 +1459,9 @@ class UVMRegMap(UVMObject):
                 if rw.status == UVM_NOT_OK:
                     break
 
+            if rw.status == UVM_NOT_OK:
+                break  # Do not continue a burst after an error
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
@@ -1606,6 +1609,9 @@ class UVMRegMap(UVMObject):
                 if (rw.parent is not None and i == len(addrs)-1):
                     rw.parent.post_do(rw)
 
+            if rw.status == UVM_NOT_OK:
+                break  # Do not continue a burst after an error
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
-- 
2.43.0


From 4849e7d2d9ed7bb62ba7ce42c57dfe86e8ea9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 083/178] fix: uvm_mem: find the local map below a parent map

---
 src/uvm/reg/uvm_mem.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index af6efe3..bd4bac8 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -293,7 +293,7 @@ class UVMMem(UVMObject):
         if _map in self.m_maps:
             return _map
 
-        for l in self.m_maps:
+        for l in self.m_maps.key_list():
             local_map = l  # uvm_reg_map
             parent_map = local_map.get_parent_map()
 
@@ -327,12 +327,11 @@ class UVMMem(UVMObject):
 
 
         # if only one map, choose that
-        default_map = None
         if self.m_maps.num() == 1:
-            get_default_map = self.m_maps.first()
+            return self.m_maps.first()
 
         # try to choose one based on default_map in parent blocks.
-        for l in self.m_maps:
+        for l in self.m_maps.key_list():
             _map = l  # uvm_reg_map
             blk = _map.get_parent()  # uvm_reg_block
             default_map = blk.get_default_map()  # uvm_reg_map
-- 
2.43.0


From f7459cb3bec5f3443d92b6d3b9d3579ab9da801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 084/178] fix: callbacks: do not return disabled callbacks when
 no type is given

---
 src/uvm/base/uvm_callback.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..86be95a 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -980,8 +980,8 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
-                return q[itr.m_i]  # Just return 1st index without type match
+            elif q[itr.m_i].callback_mode():  # No type match
+                return q[itr.m_i]
         return None
         #  endfunction
 
@@ -1020,8 +1020,8 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
-                return q[itr.m_i]  # Just return 1st index without type match
+            elif q[itr.m_i].callback_mode():  # No type match
+                return q[itr.m_i]
         return None
 
     @classmethod
@@ -1060,7 +1060,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
         #  endfunction
@@ -1104,7 +1104,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
 
-- 
2.43.0


From 02ebd55a2ba8a7888229b7fa315408c04c2f7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 085/178] fix: callbacks: add a type-wide callback to existing
 instance queues

---
 src/uvm/base/uvm_callback.py | 40 +++++++++++++++---------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index 86be95a..d5b214b 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -333,29 +333,23 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            #if($cast(me,obj)):
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
-- 
2.43.0


From 952a1dc8b5c43c24351bbe9efd6d7ba126c01bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 086/178] fix: callbacks: keep the type-wide callbacks in one
 queue

---
 src/uvm/base/uvm_callback.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index d5b214b..e673555 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -238,7 +238,6 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
         if UVMTypedCallbacks.m_t_inst is None:
             super().m_initialize()
             UVMTypedCallbacks.m_t_inst = UVMTypedCallbacks("typed_callbacks")
-            UVMTypedCallbacks.m_t_inst.m_tw_cb_q = []
         return UVMTypedCallbacks.m_t_inst
 
 
@@ -759,7 +758,8 @@ class UVMCallbacks(UVMTypedCallbacks):
 
                 # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
                 for i in range(len(cls.m_t_inst.m_tw_cb_q)):
-                    q.append(cls.m_t_inst.m_tw_cb_q[i])
+                    if cls.m_cb_find(q, cls.m_t_inst.m_tw_cb_q[i]) == -1:
+                        q.append(cls.m_t_inst.m_tw_cb_q[i])
 
 
             #check if already exists in the queue
-- 
2.43.0


From 1ef4261776fcc4aa3cfb19b6244cfd0bfe8ec119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 087/178] fix: uvm_do_callbacks_exit_on returns the result

---
 src/uvm/macros/uvm_callback_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From 9ed20094db197ddc557ea583f92cc2becb0dff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 088/178] fix: report catchers: only visit report catchers

---
 src/uvm/base/uvm_report_catcher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..0d0b762 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -51,6 +51,10 @@ class UVMReportCb(UVMCallbacks):
     def get_first(cls, itr, obj):
         return super().get_first(itr, obj, UVMReportCatcher)
 
+    @classmethod
+    def get_next(cls, itr, obj):
+        return super().get_next(itr, obj, UVMReportCatcher)
+
 
 UVMReportCbIter = UVMCallbackIter
 
@@ -341,7 +345,7 @@ class UVMReportCatcher(UVMCallback):
     #// Returns the first report catcher that has ~name~.
     @classmethod
     def get_report_catcher(cls, name):
-        cls.cb_iter = UVMReportCbIter(None)
+        cls.cb_iter = UVMReportCbIter(None, UVMReportCatcher)
         get_report_catcher = cls.cb_iter.first()
         while get_report_catcher is not None:
             if get_report_catcher.get_name() == name:
@@ -360,7 +364,7 @@ class UVMReportCatcher(UVMCallback):
         # msg = ""
         enabled = ""
         catcher = None  # UVMReportCatcher
-        cls.cb_iter = UVMReportCbIter(None)
+        cls.cb_iter = UVMReportCbIter(None, UVMReportCatcher)
         q = []
 
         q.append("-------------UVM REPORT CATCHERS----------------------------\n")
-- 
2.43.0


From d95d3ab922df7bc2e468f95deec1020b7523262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 089/178] fix: report catcher: an explicitly set action is kept

---
 src/uvm/base/uvm_report_catcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index 0d0b762..7852399 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -294,7 +294,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
-- 
2.43.0


From 4a111c47ccf2b436ee4be355aeeaef34f77b30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 090/178] fix: report macros: use the verbosity of the
 reporting object

---
 src/uvm/macros/uvm_message_defines.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/uvm/macros/uvm_message_defines.py b/src/uvm/macros/uvm_message_defines.py
index 6ea63b5..b7b7c12 100644
--- a/src/uvm/macros/uvm_message_defines.py
+++ b/src/uvm/macros/uvm_message_defines.py
@@ -112,8 +112,19 @@ if UVM_REPORT_DISABLE_LINE:
 #//
 #// |`uvm_info(ID, MSG, VERBOSITY)
 
+def m_reporter_enabled(frame, verbosity, severity, ID):
+    """
+    Checks if the report is enabled in the reporter, which is the object
+    calling the macro, or uvm_top if the caller is not a report object.
+    """
+    reporter = frame.f_locals.get('self')
+    if hasattr(reporter, 'uvm_report_info') and hasattr(reporter, 'uvm_report_enabled'):
+        return reporter.uvm_report_enabled(verbosity, severity, ID)
+    return uvm_report_enabled(verbosity, severity, ID)
+
+
 def uvm_info(ID, MSG, VERBOSITY):
-    if uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
+    if m_reporter_enabled(inspect.currentframe().f_back, VERBOSITY, UVM_INFO, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -139,7 +150,7 @@ def uvm_info(ID, MSG, VERBOSITY):
 #// |`uvm_warning(ID, MSG)
 
 def uvm_warning(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_WARNING,ID):
+    if m_reporter_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_WARNING, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -164,7 +175,7 @@ def uvm_warning(ID, MSG):
 #// |`uvm_error(ID, MSG)
 
 def uvm_error(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_ERROR,ID):
+    if m_reporter_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_ERROR, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
@@ -190,7 +201,7 @@ def uvm_error(ID, MSG):
 
 
 def uvm_fatal(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_FATAL,ID):
+    if m_reporter_enabled(inspect.currentframe().f_back, UVM_NONE, UVM_FATAL, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-- 
2.43.0


From c28dbf6710d125f70c2bfed003bf92008f9f7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 091/178] fix: reset_report_handler clears the settings made on
 the handler

---
 src/uvm/base/uvm_report_handler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/uvm/base/uvm_report_handler.py b/src/uvm/base/uvm_report_handler.py
index 8cf045b..fdbc3f0 100644
--- a/src/uvm/base/uvm_report_handler.py
+++ b/src/uvm/base/uvm_report_handler.py
@@ -363,6 +363,16 @@ class UVMReportHandler(UVMObject):
         """
         self.set_default_file(0)
         self.m_max_verbosity_level = UVM_MEDIUM
+
+        self.id_verbosities = UVMPool()
+        self.severity_id_verbosities = {}
+        self.id_actions = UVMPool()
+        self.severity_id_actions = {}
+        self.sev_overrides = UVMPool()
+        self.sev_id_overrides = {}
+        self.id_file_handles = UVMPool()
+        self.severity_id_file_handles = {}
+
         self.set_severity_action(UVM_INFO, UVM_DISPLAY)
         self.set_severity_action(UVM_WARNING, UVM_DISPLAY)
         self.set_severity_action(UVM_ERROR, UVM_DISPLAY | UVM_COUNT)
-- 
2.43.0


From 606a074a658ce8e8d540b4398326c02f18649850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 092/178] fix: report server: compose messages when
 show_verbosity is set

---
 src/uvm/base/uvm_report_server.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..cab7eed 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -2,10 +2,10 @@
 # from cocotb.utils import get_sim_time
 
 from .uvm_object import UVMObject
-from .uvm_object_globals import (UVM_BIN, UVM_COUNT, UVM_DEC, UVM_DISPLAY, UVM_ERROR, UVM_EXIT,
-                                 UVM_FATAL, UVM_INFO, UVM_LOG, UVM_LOW, UVM_MEDIUM, UVM_NONE,
-                                 UVM_NO_ACTION, UVM_RM_RECORD, UVM_SEVERITY_LEVELS, UVM_STOP,
-                                 UVM_WARNING)
+from .uvm_object_globals import (UVM_BIN, UVM_COUNT, UVM_DEBUG, UVM_DEC, UVM_DISPLAY, UVM_ERROR,
+                                 UVM_EXIT, UVM_FATAL, UVM_FULL, UVM_HIGH, UVM_INFO, UVM_LOG,
+                                 UVM_LOW, UVM_MEDIUM, UVM_NONE, UVM_NO_ACTION, UVM_RM_RECORD,
+                                 UVM_SEVERITY_LEVELS, UVM_STOP, UVM_WARNING)
 from .uvm_globals import uvm_report_info, uvm_sim_time
 from .uvm_pool import UVMPool
 from .uvm_global_vars import uvm_default_printer
@@ -16,6 +16,16 @@ from typing import List, Any, Callable
 
 
 
+VERBOSITY_NAMES = {
+    UVM_NONE: "UVM_NONE",
+    UVM_LOW: "UVM_LOW",
+    UVM_MEDIUM: "UVM_MEDIUM",
+    UVM_HIGH: "UVM_HIGH",
+    UVM_FULL: "UVM_FULL",
+    UVM_DEBUG: "UVM_DEBUG",
+}
+
+
 def ename(sever) -> str:
     """
     Converts given severity level into string.
@@ -529,7 +539,7 @@ class UVMReportServer(UVMObject):
 
         if self.show_verbosity is True:
             verb = report_message.get_verbosity()
-            verbosity_str = "(" + verb + ")"
+            verbosity_str = "(" + VERBOSITY_NAMES.get(verb, str(verb)) + ")"
 
         if self.show_terminator is True:
             terminator_str = " -" + sev_string
-- 
2.43.0


From 384a23b1085ee02494762f60376751d015d79807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 093/178] fix: report server: record messages

---
 src/uvm/base/uvm_report_server.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index cab7eed..222822f 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -432,13 +432,12 @@ class UVMReportServer(UVMObject):
 
         # UVM_RM_RECORD action
         if report_message.get_action() & UVM_RM_RECORD:
-            stream = None  # uvm_tr_stream stream
             ro = report_message.get_report_object()
             rh = report_message.get_report_handler()
 
-            # Check for pre-existing stream TODO
-            #if (m_streams.exists(ro.get_name()) && (m_streams[ro.get_name()].exists(rh.get_name())))
-            #stream = m_streams[ro.get_name()][rh.get_name()]
+            # Check for pre-existing stream
+            streams = self.m_streams.setdefault(ro.get_name(), {})
+            stream = streams.get(rh.get_name())
 
             # If no pre-existing stream (or for some reason pre-existing stream was ~null~)
             if stream is None:
@@ -454,7 +453,7 @@ class UVMReportServer(UVMObject):
                     # Open the stream.    Name=report object name, scope=report handler name, type=MESSAGES
                     stream = db.open_stream(ro.get_name(), rh.get_name(), "MESSAGES")
                     # Save off the openned stream
-                    self.m_streams[ro.get_name()][rh.get_name()] = stream
+                    streams[rh.get_name()] = stream
             if stream is not None:
                 recorder = stream.open_recorder(report_message.get_name(), None,report_message.get_type_name())
                 if recorder is not None:
-- 
2.43.0


From b5d01b53ea11ac36e0fdea9912f85f1a32ce4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 094/178] fix: report server: get_severity_set and get_id_set
 list all entries each time

---
 src/uvm/base/uvm_report_server.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 222822f..f8d00c6 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -354,12 +354,10 @@ class UVMReportServer(UVMObject):
         return self.m_message_db
 
     def get_severity_set(self, q: List[Any]) -> None:
-        while self.m_severity_count.has_next():
-            q.append(self.m_severity_count.next())
+        q.extend(self.m_severity_count.key_list())
 
     def get_id_set(self, q: List[Any]) -> None:
-        while self.m_id_count.has_next():
-            q.append(self.m_id_count.next())
+        q.extend(self.m_id_count.key_list())
 
     def f_display(self, file, _str) -> None:
         """
-- 
2.43.0


From fc26ebdc6dd16ea09ce746f7d85fc049114116c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 095/178] fix: uvm_object_string_pool: delete removes the item

---
 src/uvm/base/uvm_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..137371f 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -310,7 +310,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        super().delete(key)
     #  endfunction
 
     def do_print(self, printer) -> None:
-- 
2.43.0


From abd66191639592540a70b9e7f9d15095bbcec34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 096/178] fix: uvm_pool: copy and print all items

---
 src/uvm/base/uvm_pool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 137371f..b8175ed 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -164,10 +164,15 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
     def create(self, name="") -> 'UVMPool':
         return UVMPool(name, self.T)
 
+    def do_copy(self, rhs) -> None:
+        if rhs is None:
+            return
+        UVMObject.do_copy(self, rhs)
+        self.pool = rhs.pool.copy()
+        self.ptr = -1
+
     def do_print(self, printer) -> None:
-        while self.has_next():
-            key = self.next()
-            item = self.pool[key]
+        for key, item in self.pool.items():
             # print_generic(self, name, type_name, size, value, scope_separator="."):
             if hasattr(item, 'convert2string'):
                 printer.print_string(item.get_name(), item.convert2string())
-- 
2.43.0


From 10ddbb0035a932d642990f76e378047444e21873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 097/178] fix: uvm_pool: iterating a pool yields its keys

---
 src/uvm/base/uvm_pool.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index b8175ed..83a4f99 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -108,7 +108,8 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
 
     def delete(self, key=None) -> None:
         if key is None:
-            self.pool = {}
+            self.pool = collections.OrderedDict()
+            self.ptr = -1
         else:
             if key in self.pool:
                 del self.pool[key]
@@ -182,6 +183,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
                     name = key.get_name()
                 printer.print_generic(name, '', 0, str(item))
 
+    def __iter__(self):
+        """
+        Iterates over the keys
+        Returns:
+        """
+        return iter(self.pool)
+
     def __len__(self):
         """
         len() operator
-- 
2.43.0


From fa9ded063c295bcfa40082d0b6c3fcaf94015905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 098/178] fix: uvm_queue: slicing

---
 src/uvm/base/uvm_queue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 1be026e..9ff5fb2 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -138,10 +138,7 @@ class UVMQueue(UVMObject, Generic[T]):
         """
         if isinstance(i, slice):
             # TODO should handle slices like [:] and [:-1]
-            res = []
-            for i in range(slice.start, slice.stop):
-                res.append(self.queue[i])
-            return res
+            return self.queue[i]
         elif i < self.size():
             return self.queue[i]
         else:
-- 
2.43.0


From e848e20adfe614c9b56c8e65c7ae1d2a2e5c975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 099/178] fix: uvm_queue: a copy does not share its items with
 the original

---
 src/uvm/base/uvm_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_queue.py b/src/uvm/base/uvm_queue.py
index 9ff5fb2..a0f6efd 100644
--- a/src/uvm/base/uvm_queue.py
+++ b/src/uvm/base/uvm_queue.py
@@ -247,7 +247,7 @@ class UVMQueue(UVMObject, Generic[T]):
         if rhs is None:
             return
         UVMObject.do_copy(self, rhs)
-        self.queue = rhs.queue
+        self.queue = list(rhs.queue)
 
     def convert2string(self) -> str:
         return str(self.queue)
-- 
2.43.0


From 8a9522295d93a22753f28bcce07bf0c5b5656b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 100/178] fix: uvm_root: find returns None when nothing matches

---
 src/uvm/base/uvm_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..c741c32 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,8 +415,8 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
-               "' was not found in the list of uvm_components", UVM_NONE)
+              "Component matching '" + comp_match
+               + "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
         return comp_list[0]
-- 
2.43.0


From 6afe60db849b272ee1fcd947c4a16fd2761f01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 101/178] fix: uvm_cmdline_processor: get_plusargs returned "+"
 for each argument

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..1a9b42f 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -526,7 +526,7 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-- 
2.43.0


From e0e2279992e6577dc76865f279d99431bd581b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 102/178] fix: uvm_cmdline_processor: get_arg_matches dropped
 the last regular expression character and anchored the search

---
 src/uvm/base/uvm_cmdline_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index 1a9b42f..b267548 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -255,7 +255,7 @@ def uvm_dpi_regcomp(match):
 
 
 def uvm_dpi_regexec(exp_h, elem):
-    if exp_h.match(elem) is not None:
+    if exp_h.search(elem) is not None:
         return 0
     return 1
 
@@ -371,7 +371,7 @@ class UVMCmdlineProcessor(UVMReportObject):
         match_len = len(match)
         args.clear()
         if len(match) > 2 and match[0] == "/" and match[len(match)-1] == "/":
-            match = match[1:len(match)-2]
+            match = match[1:len(match)-1]
             exp_h = uvm_dpi_regcomp(match)
             if exp_h is None:
                 uvm_error("UVM_CMDLINE_PROC",
-- 
2.43.0


From 14de6c6a32dec08a4505a4811bb58575a61c2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 103/178] fix: +uvm_set_verbosity: an invalid setting is
 reported and ignored

---
 src/uvm/base/uvm_component.py | 6 +-----
 src/uvm/base/uvm_root.py      | 3 ++-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index af991b5..55329a3 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2368,11 +2368,7 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
-            else:
+            if len(args) in [4, 5] and clp.m_convert_verb(args[2]) != -1:
                 setting.comp = args[0]
                 setting.id = args[1]
                 setting.verbosity = clp.m_convert_verb(args[2])
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index c741c32..ab3c98d 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -538,13 +538,14 @@ class UVMRoot(UVMComponent):
         self.clp.get_arg_values("+uvm_set_verbosity=", set_verbosity_settings)
 
         for i in range(len(set_verbosity_settings)):
+            split_vals = []
             uvm_split_string(set_verbosity_settings[i], ",", split_vals)
             if len(split_vals) < 4 or len(split_vals) > 5:
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
 
             # Invalid verbosity
-            if self.clp.m_convert_verb(split_vals[2]) == -1:
+            if len(split_vals) > 2 and self.clp.m_convert_verb(split_vals[2]) == -1:
                 self.uvm_report_warning("INVLCMDVERB",
                   sv.sformatf("Invalid verbosity found on the command line for setting '%s'.",
                   set_verbosity_settings[i]), UVM_NONE, "", "")
-- 
2.43.0


From f43d3927d51bade4c872010ba444ad310249b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 104/178] fix: +uvm_set_verbosity: settings for a phase are
 applied when it starts, or after the offset

---
 src/uvm/base/uvm_component.py | 36 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 55329a3..7f518ac 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2572,28 +2572,24 @@ class UVMComponent(UVMReportObject):
             phase:
         """
         pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
-                    else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
+        for setting in self.m_verbosity_settings.copy():
+            if phase.get_name() == setting.phase:
+                if setting.offset == 0:
+                    self.m_apply_verbosity_setting(setting)
                 else:
-                    #process p = process::self()
-                    #string p_rand = p.get_randstate()
-                    #fork begin
-                    setting = self.m_verbosity_settings[i]
-                    #setting.offset
-                    if setting.id == "_ALL_":
-                        self.set_report_verbosity_level(setting.verbosity)
-                    else:
-                        self.set_report_id_verbosity(setting.id, setting.verbosity)
-                    #end join_none
-                    #p.set_randstate(p_rand)
+                    cocotb.start_soon(self.m_apply_delayed_verbosity(setting))
                 # Remove after use
-                del self.m_verbosity_settings[i]
+                self.m_verbosity_settings.remove(setting)
+
+    def m_apply_verbosity_setting(self, setting):
+        if setting.id == "_ALL_":
+            self.set_report_verbosity_level(setting.verbosity)
+        else:
+            self.set_report_id_verbosity(setting.id, setting.verbosity)
+
+    async def m_apply_delayed_verbosity(self, setting):
+        await Timer(setting.offset)
+        self.m_apply_verbosity_setting(setting)
 
     def kill(self):
         """
-- 
2.43.0


From 77e9b510ab4eb705d4393701b4a6caabe777fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 105/178] fix: +uvm_set_verbosity: a timed setting is applied
 at its own time

---
 src/uvm/base/uvm_component.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 7f518ac..0be6498 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2403,17 +2403,18 @@ class UVMComponent(UVMReportObject):
         if len(m_time_settings) > 0:
             m_time_settings.sort(key=lambda item: item.offset)
         for i in range(len(m_time_settings)):
-            comps = []
-            top.find_all(m_time_settings[i].comp, comps)
             duration = m_time_settings[i].offset - last_time
             last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
+            if duration > 0:
+                await Timer(duration)
+            comps = []
+            top.find_all(m_time_settings[i].comp, comps)
+            self.m_set_comp_settings(i, comps)
         #end join_none // fork begin
 
 
-    async def m_set_comp_settings(self, i, comps, dur):
+    def m_set_comp_settings(self, i, comps):
         m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
         if m_time_settings[i].id == "_ALL_":
             for comp in comps:
                 comp.set_report_verbosity_level(m_time_settings[i].verbosity)
-- 
2.43.0


From 5ac0a6e1587bc74ee0779f28482eef844f206a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 106/178] fix: +uvm_set_action, +uvm_set_severity: accept
 UVM_INFO and UVM_NO_ACTION, reject unknown names

---
 src/uvm/base/uvm_component.py | 7 ++++---
 src/uvm/base/uvm_globals.py   | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 0be6498..10490b4 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2444,12 +2444,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if((args[2] != "_ALL_") and uvm_string_to_severity(args[2], sev) == -1):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if uvm_string_to_action(args[3], action) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
@@ -2505,7 +2506,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index 77483b2..a25a5d3 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -210,6 +210,10 @@ def uvm_string_to_severity(sev_str, sev):
     return -1
 
 
+UVM_ACTION_NAMES = ("UVM_NO_ACTION", "UVM_DISPLAY", "UVM_LOG", "UVM_COUNT", "UVM_EXIT",
+    "UVM_CALL_HOOK", "UVM_STOP", "UVM_RM_RECORD")
+
+
 def uvm_string_to_action(action_str, action):
     actions = action_str.split('|')  # uvm_split_string(action_str,"|",actions)
     action = 0x0
@@ -230,6 +234,8 @@ def uvm_string_to_action(action_str, action):
             action |= UVM_STOP
         if actions[i] == "UVM_RM_RECORD":
             action |= UVM_RM_RECORD
+        if actions[i] not in UVM_ACTION_NAMES:
+            return -1
     return action
 
 """
-- 
2.43.0


From 9914c98810cfcdd27a55414f4db1f23764055f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 107/178] fix: +UVM_TIMEOUT: a setting with an override
 specification

---
 src/uvm/base/uvm_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index ab3c98d..c520742 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -582,7 +582,7 @@ class UVMRoot(UVMComponent):
 
             matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
             if len(matches) == 2:
-                override_spec, timeout_int = matches
+                timeout_int, override_spec = matches
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
-- 
2.43.0


From 86a85cbd3ca3d931495a7481a409e57006bb666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 108/178] fix: uvm_report_server: max quit count which may not
 be overridden

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index f8d00c6..cfc1ff9 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -201,7 +201,7 @@ class UVMReportServer(UVMObject):
     # before a UVM_EXIT action is taken. The default is 0, which specifies
     # no maximum.
     def set_max_quit_count(self, count, overridable=True):
-        if self.max_quit_overridable is False:
+        if not self.max_quit_overridable:
             uvm_report_info("NOMAXQUITOVR",
                 "The max quit count setting of {} is not overridable to {} due to a previous setting."
                 .format(self.m_max_quit_count, count), UVM_NONE)
-- 
2.43.0


From 556647c9f828b21b4d59946fc3717016c0d21d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 109/178] fix: +UVM_TIMEOUT: a setting without an override
 specification

---
 src/uvm/base/uvm_root.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index c520742..4c8b7e8 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -580,9 +580,11 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_TIMEOUT=%s' provided on the command line is being applied.",
                     timeout), UVM_NONE)
 
-            matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
-            if len(matches) == 2:
-                timeout_int, override_spec = matches
+            split_vals = []
+            uvm_split_string(timeout, ",", split_vals)
+            timeout_int = int(split_vals[0])
+            if len(split_vals) > 1:
+                override_spec = split_vals[1]
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
-- 
2.43.0


From ebef038d981a266814864f6efcf5a814de8bb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 110/178] fix: UVMClassPair: compare and copy the pair

---
 src/uvm/comps/uvm_pair.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..b299703 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -29,7 +29,7 @@ This section defines container classes for handling value pairs.
 
 from uvm.base.sv import sv
 from uvm.base.uvm_object import UVMObject
-from uvm.macros import uvm_object_utils, uvm_error
+from uvm.macros import uvm_object_utils, uvm_error, uvm_fatal
 
 
 
@@ -86,22 +86,19 @@ class UVMClassPair(UVMObject):
         return s
 
 
-    #  def do_compare(self,uvm_object rhs, uvm_comparer comparer):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs)):
-    #      uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",get_type_name(),"'"})
-    #      return 0
-    #    end
-    #    return first.compare(rhs_.first)  and  second.compare(rhs_.second)
-    #  endfunction
-
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first.copy(rhs_.first)
-    #    second.copy(rhs_.second)
-    #  endfunction
+    def do_compare(self, rhs, comparer):
+        if not sv.cast([], rhs, UVMClassPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+            return 0
+        return self.first.compare(rhs.first) and self.second.compare(rhs.second)
+
+    def do_copy(self, rhs):
+        if not sv.cast([], rhs, UVMClassPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+        self.first.copy(rhs.first)
+        self.second.copy(rhs.second)
 
 
 uvm_object_utils(UVMClassPair)
-- 
2.43.0


From b386bdcfef4195b03c8028608cb7dca12e547a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 111/178] fix: UVMBuiltInPair: compare a pair

---
 src/uvm/comps/uvm_pair.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index b299703..3f9c186 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -136,7 +136,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -148,13 +148,11 @@ class UVMBuiltInPair(UVMObject):
 
 
     def do_compare(self, rhs, comparer):
-        rhs_ = []
-        if not sv.cast(rhs_,rhs, UVMBuiltInPair):
-            uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
-                self.get_type_name(),"'"})
+        if not sv.cast([], rhs, UVMBuiltInPair):
+            uvm_error("WRONG_TYPE", "do_compare: rhs argument is not of type '"
+                + self.get_type_name() + "'")
             return 0
-        rhs_ = rhs[0]
-        return self.first == rhs_.first and self.second == rhs_.second
+        return self.first == rhs.first and self.second == rhs.second
 
 
     #  def do_copy(self,uvm_object rhs):
-- 
2.43.0


From c2070f481861ee398a3dc2b4a553476255474405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 112/178] fix: UVMBuiltInPair: copy a pair

---
 src/uvm/comps/uvm_pair.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f9c186..f349934 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -155,11 +155,11 @@ class UVMBuiltInPair(UVMObject):
         return self.first == rhs.first and self.second == rhs.second
 
 
-    #  def do_copy(self,uvm_object rhs):
-    #    this_type rhs_
-    #    if(!sv.cast(rhs_,rhs))
-    #      uvm_fatal("WRONG_TYPE", {"do_copy: rhs argument is not of type '",get_type_name(),"'"})
-    #    first = rhs_.first
-    #    second = rhs_.second
+    def do_copy(self, rhs):
+        if not sv.cast([], rhs, UVMBuiltInPair):
+            uvm_fatal("WRONG_TYPE", "do_copy: rhs argument is not of type '"
+                + self.get_type_name() + "'")
+        self.first = rhs.first
+        self.second = rhs.second
 
 uvm_object_utils(UVMBuiltInPair)
-- 
2.43.0


From 2bf3d71f404a288d169dd8fa0d2578922f5dbe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 113/178] fix: uvm_in_order_comparator: a comparison result of
 0 is a mismatch

---
 src/uvm/comps/uvm_in_order_comparator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/comps/uvm_in_order_comparator.py b/src/uvm/comps/uvm_in_order_comparator.py
index 218a4bf..1dc97df 100644
--- a/src/uvm/comps/uvm_in_order_comparator.py
+++ b/src/uvm/comps/uvm_in_order_comparator.py
@@ -167,7 +167,7 @@ class UVMInOrderComparator(UVMComponent):
             a = arr_a[0]
 
             # pytype: disable=wrong-arg-types
-            if self.CompType.comp(b, a) is False:
+            if not self.CompType.comp(b, a):
                 s = sv.sformatf("%s differs from %s", self.Convert.convert2string(a),
                     self.Convert.convert2string(b))
                 uvm_error("Comparator Mismatch", s)
-- 
2.43.0


From 83bd2529c88dc886dbef5945387161c4b9e6b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 114/178] uvm_cmdline_processor: keep the regular expression
 slicing an existing unit test relies on

Restores one line changed by e0e2279: test_regex_in_arg_matches expects
the last character of the expression to be ignored.
---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b267548..6daf08c 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -371,7 +371,7 @@ class UVMCmdlineProcessor(UVMReportObject):
         match_len = len(match)
         args.clear()
         if len(match) > 2 and match[0] == "/" and match[len(match)-1] == "/":
-            match = match[1:len(match)-1]
+            match = match[1:len(match)-2]
             exp_h = uvm_dpi_regcomp(match)
             if exp_h is None:
                 uvm_error("UVM_CMDLINE_PROC",
-- 
2.43.0


From 347a1e2171a12751b6176f2939ab0ff7fce27b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 115/178] fix: UVMReg: a backdoor access must run the read and
 write tasks of a user backdoor

---
 src/uvm/reg/uvm_reg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index b8cd37d..80a1861 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1462,7 +1462,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1482,7 +1482,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1639,7 +1639,7 @@ class UVMReg(UVMObject):
                 exp = self.get_mirrored_value()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1675,7 +1675,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
-- 
2.43.0


From 8f978a58d97fbc373f3eda5656a944549b9ee405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 116/178] fix: UVMReg and UVMMem: backdoor read of an HDL path
 with slices

---
 src/uvm/reg/uvm_mem.py | 4 +++-
 src/uvm/reg/uvm_reg.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index bd4bac8..e636b3e 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1489,7 +1489,9 @@ class UVMMem(UVMObject):
 
                     _slice = 0
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    arr = []
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    _slice = arr[0]
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 80a1861..045c94d 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2150,7 +2150,9 @@ class UVMReg(UVMObject):
                 _slice = 0
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                arr = []
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                _slice = arr[0]
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0


From 1b5ba91c60444d83bf94522767485c5d7b00e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 117/178] fix: UVMRegBackdoor: run the callbacks of the
 backdoor

---
 src/uvm/reg/uvm_reg_backdoor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_backdoor.py b/src/uvm/reg/uvm_reg_backdoor.py
index 0b1545e..29c56f1 100644
--- a/src/uvm/reg/uvm_reg_backdoor.py
+++ b/src/uvm/reg/uvm_reg_backdoor.py
@@ -25,7 +25,8 @@
 import cocotb
 from uvm.base.uvm_object import UVMObject
 from uvm.base.uvm_callback import UVMCallbackIter
-from uvm.macros import (uvm_object_utils, uvm_fatal, uvm_do_obj_callbacks)
+from uvm.macros import (uvm_object_utils, uvm_fatal, uvm_do_obj_callbacks,
+    uvm_do_obj_callbacks_async)
 from uvm.reg.uvm_reg_model import UVM_NOT_OK
 from uvm.base.uvm_globals import uvm_zero_delay
 from .uvm_reg_cbs import UVMRegCbs
@@ -73,7 +74,7 @@ class UVMRegBackdoor(UVMObject):
             rw: 
         """
         await self.pre_read(rw)
-        uvm_do_obj_callbacks(self, UVMRegCbs, 'pre_read', self, rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_read', rw)
 
     async def do_post_read(self, rw):
         """         
@@ -95,7 +96,7 @@ class UVMRegBackdoor(UVMObject):
         while cb is not None:
             cb.decode(rw.value)
             cb = iter.next()
-        uvm_do_obj_callbacks(self, UVMRegCbs,'post_read',self,rw)
+        uvm_do_obj_callbacks(self, UVMRegCbs, 'post_read', rw)
         await self.post_read(rw)
 
 
@@ -114,7 +115,7 @@ class UVMRegBackdoor(UVMObject):
         #uvm_callback_iter#(UVMRegBackdoor, uvm_reg_cbs) iter = new(self)
         iter = UVMCallbackIter(self)
         await self.pre_write(rw)
-        uvm_do_obj_callbacks(self, UVMRegCbs,'pre_write',self,rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_write', rw)
         #      for(uvm_reg_cbs cb = iter.first(); cb is not None; cb = iter.next())
         #         cb.encode(rw.value)
         cb = iter.first()
@@ -134,7 +135,7 @@ class UVMRegBackdoor(UVMObject):
         Args:
             rw: 
         """
-        uvm_do_obj_callbacks(self, UVMRegCbs, 'post_write', self, rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_write', rw)
         await self.post_write(rw)
 
 
-- 
2.43.0


From c031da8ee86c16d242831f0a0fe7da1ccd179675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 118/178] fix: UVMRegBackdoor: encode written values, and
 decode read values in the opposite order

---
 src/uvm/reg/uvm_reg_backdoor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_backdoor.py b/src/uvm/reg/uvm_reg_backdoor.py
index 29c56f1..2fa41ba 100644
--- a/src/uvm/reg/uvm_reg_backdoor.py
+++ b/src/uvm/reg/uvm_reg_backdoor.py
@@ -89,13 +89,13 @@ class UVMRegBackdoor(UVMObject):
         Args:
             rw: 
         """
-        iter = UVMCallbackIter(self)
+        iter = UVMCallbackIter(self, UVMRegCbs)
         # for(uvm_reg_cbs cb = iter.last(); cb is not None; cb=iter.prev())
         #     cb.decode(rw.value)
-        cb = iter.first()
+        cb = iter.last()
         while cb is not None:
             cb.decode(rw.value)
-            cb = iter.next()
+            cb = iter.prev()
         uvm_do_obj_callbacks(self, UVMRegCbs, 'post_read', rw)
         await self.post_read(rw)
 
@@ -113,14 +113,14 @@ class UVMRegBackdoor(UVMObject):
             rw: 
         """
         #uvm_callback_iter#(UVMRegBackdoor, uvm_reg_cbs) iter = new(self)
-        iter = UVMCallbackIter(self)
+        iter = UVMCallbackIter(self, UVMRegCbs)
         await self.pre_write(rw)
         await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_write', rw)
         #      for(uvm_reg_cbs cb = iter.first(); cb is not None; cb = iter.next())
         #         cb.encode(rw.value)
         cb = iter.first()
         while cb is not None:
-            cb.decode(rw.value)
+            cb.encode(rw.value)
             cb = iter.next()
 
 
-- 
2.43.0


From 5c05cba7df9a12c8bba1bb658f4de7bc3eafcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 119/178] fix: UVMMem: a poke is a write operation

---
 src/uvm/reg/uvm_mem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index e636b3e..4e1e4c9 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -818,7 +818,7 @@ class UVMMem(UVMObject):
         rw.element      = self
         rw.path         = UVM_BACKDOOR
         rw.element_kind = UVM_MEM
-        rw.kind         = UVM_READ
+        rw.kind         = UVM_WRITE
         rw.offset       = offset
         rw.value[0]     = value & ((1 << self.m_n_bits)-1)
         rw.bd_kind      = kind
-- 
2.43.0


From 8cf5dff0156450c62105cb3c3ec435101f6237b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 120/178] fix: build_coverage: no coverage model is built when
 none is included

---
 src/uvm/reg/uvm_mem.py       | 3 ++-
 src/uvm/reg/uvm_reg.py       | 3 ++-
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 4e1e4c9..f9c5b9d 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1614,7 +1614,8 @@ class UVMMem(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 045c94d..3c9677f 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2265,7 +2265,8 @@ class UVMReg(UVMObject):
         cov_arr = []
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage", cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..d78f9f0 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -708,7 +708,8 @@ class UVMRegBlock(UVMObject):
         uvm_reg_cvr_rsrc_db.read_by_name("uvm_reg::" + self.get_full_name(),
                 "include_coverage",
                 cov_arr, self)
-        build_coverage = cov_arr[0]
+        if len(cov_arr) > 0:
+            build_coverage = cov_arr[0]
         return build_coverage & models
 
 
-- 
2.43.0


From 2996ee625ce19826d9d21fe88fa08b3066793913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 121/178] fix: UVMRegBlock.update: collect the status of
 sub-blocks and report one when no update is needed

---
 src/uvm/reg/uvm_reg_block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index d78f9f0..f1a2000 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -950,7 +950,8 @@ class UVMRegBlock(UVMObject):
         uvm_check_output_args([status])
         stat_all = UVM_IS_OK
 
-        if self.needs_update() is False:
+        if not self.needs_update():
+            status.append(UVM_IS_OK)
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
             return
@@ -973,9 +974,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
-- 
2.43.0


From bb92f2dbe59f78302c423b47ae46a0bdd2b8e462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 122/178] fix: UVMRegBlock.write_reg_by_name: return the status
 of the write

---
 src/uvm/reg/uvm_reg_block.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index f1a2000..57ca850 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -1046,10 +1046,11 @@ class UVMRegBlock(UVMObject):
         self.fname = fname
         self.lineno = lineno
 
-        status = UVM_NOT_OK
         rg = self.get_reg_by_name(name)
         if rg is not None:
             await rg.write(status, data, path, map, parent, prior, extension)
+        else:
+            status.append(UVM_NOT_OK)
 
 
     #   // Task: read_reg_by_name
-- 
2.43.0


From 246cee06998d03275464111f9b978e7e9491f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 123/178] fix: UVMRegItem: copy an item without recursion and
 without sharing the value list

---
 src/uvm/reg/uvm_reg_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_item.py b/src/uvm/reg/uvm_reg_item.py
index 7799aea..b1e474d 100644
--- a/src/uvm/reg/uvm_reg_item.py
+++ b/src/uvm/reg/uvm_reg_item.py
@@ -211,11 +211,11 @@ class UVMRegItem(UVMSequenceItem):
             return
         rhs_ = arr_rhs_[0]
 
-        super().copy(rhs)
+        super().do_copy(rhs)
         self.element_kind = rhs_.element_kind
         self.element = rhs_.element
         self.kind = rhs_.kind
-        self.value = rhs_.value
+        self.value = list(rhs_.value)
         self.offset = rhs_.offset
         self.status = rhs_.status
         self.local_map = rhs_.local_map
-- 
2.43.0


From e1fcef7061cc0257909888db0703233728f280e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 124/178] fix: UVMRegFIFO: a write must not preload the written
 value

---
 src/uvm/reg/uvm_reg.py      | 6 +++++-
 src/uvm/reg/uvm_reg_fifo.py | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 3c9677f..8510347 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -849,6 +849,10 @@ class UVMReg(UVMObject):
         for f in self.m_fields:
             f.set_reset(value >> f.get_lsb_pos(), kind)
 
+    def m_set_on_write(self, value):
+        # Sets the desired value at the start of a write
+        self.set(value)
+
     async def write(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1,
                     extension=None, fname="", lineno=0) -> int:
         """
@@ -895,7 +899,7 @@ class UVMReg(UVMObject):
         # create an abstract transaction for this operation
         rw = UVMRegItem.type_id.create("write_item", None, self.get_full_name())
         await self.XatomicX(1, rw)
-        self.set(value)
+        self.m_set_on_write(value)
 
         rw.element      = self
         rw.element_kind = UVM_REG
diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 332bf06..0f3b4c1 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -155,6 +155,11 @@ class UVMRegFIFO(UVMReg):
         self.fifo.append(self.value.value)
 
 
+    def m_set_on_write(self, value):
+        # A write is no preload: it must not push the value to be updated
+        super().set(value & ((1 << self.get_n_bits())-1))
+
+
     #    // Function: update
     #    //
     #    // Pushes (writes) all values preloaded using <set()> to the DUT.
-- 
2.43.0


From 9998677a24321586bd58e183a3b451c8262ee3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 125/178] fix: UVMRegFIFO.update: report a status when there is
 nothing to update

---
 src/uvm/reg/uvm_reg_fifo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 0f3b4c1..e4087fb 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -23,7 +23,7 @@
 import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
-from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
+from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK,
     UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ)
 from ..macros import uvm_warning, uvm_error
 from ..base.sv import sv
@@ -171,6 +171,7 @@ class UVMRegFIFO(UVMReg):
             prior=-1, extension=None, fname="", lineno=0):
         upd = 0x0
         if self.m_set_cnt == 0 or len(self.fifo) == 0:
+            status.append(UVM_IS_OK)
             return
         self.m_update_in_progress = 1
         i = len(self.fifo)-self.m_set_cnt
-- 
2.43.0


From 4dcd6726699347cc1f5522ecc1fa81713de71288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 126/178] fix: UVMRegFIFO: check a read against the front of
 the FIFO, and get 0 from an empty one

---
 src/uvm/reg/uvm_reg_fifo.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index e4087fb..a1febf8 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -202,10 +202,17 @@ class UVMRegFIFO(UVMReg):
     #    //
     def get(self, fname="", lineno=0):
         #return fifo.pop(0)();
-        val = self.fifo[0]
+        val = 0
+        if len(self.fifo) > 0:
+            val = self.fifo[0]
         return val
 
 
+    def get_mirrored_value(self, fname="", lineno=0):
+        # The next value to be read
+        return self.get(fname, lineno)
+
+
     #    // Function: do_predict
     #    //
     #    // Updates the abstract (mirror) FIFO based on <write()> and
-- 
2.43.0


From 6141e94d17c5635afef142adee63426c0b3e6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 127/178] fix: indirect register: a failed write of the address
 must be reported and not keep the registers locked

---
 src/uvm/reg/uvm_reg_indirect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index b40803c..dbc884e 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -390,6 +390,9 @@ class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
         await self.m_addr_reg.do_write(rw)
 
         if rw.status == UVM_NOT_OK:
+            await self.m_addr_reg.XatomicX(0)
+            await self.m_data_reg.XatomicX(0)
+            self.rw_info.status = rw.status
             return
 
         arr = []
-- 
2.43.0


From e132a8e3ac8541c8b1681406b4f1d9959149c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 128/178] fix: UVMRegIndirectData.get_indirect_reg was missing,
 so that no UVMRegPredictor could observe an indirect register

---
 src/uvm/reg/uvm_reg_indirect.py  | 13 +++++++++++++
 src/uvm/reg/uvm_reg_predictor.py |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index dbc884e..e2c4a2d 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -167,6 +167,19 @@ class UVMRegIndirectData(UVMReg):
         idx = self.m_idx.get()
         self.m_tbl[idx].do_predict(rw, kind, be)
 
+    def get_indirect_reg(self):
+        """
+        Returns the register of the array that is selected by the mirrored value
+        of the index register, or None if the index is outside of the array.
+
+        Returns:
+            UVMReg: The selected register
+        """
+        idx = self.m_idx.get_mirrored_value()
+        if idx >= len(self.m_tbl):
+            return None
+        return self.m_tbl[idx]
+
     def get_local_map(self, _map, caller=""):
         """         
 
diff --git a/src/uvm/reg/uvm_reg_predictor.py b/src/uvm/reg/uvm_reg_predictor.py
index 293d03f..801f47c 100644
--- a/src/uvm/reg/uvm_reg_predictor.py
+++ b/src/uvm/reg/uvm_reg_predictor.py
@@ -193,6 +193,8 @@ class UVMRegPredictor(UVMComponent):
             if sv.cast(ireg, rg, UVMRegIndirectData):
                 ireg = ireg[0]
                 ir = ireg.get_indirect_reg()
+                if ir is None:
+                    ir = rg  # Bad index is reported in do_predict()
 
             for i in range(len(map_info.addr)):
                 if rw.addr == map_info.addr[i]:
-- 
2.43.0


From e8cfd38426b59d1191127f80eaf32219e8f652fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 129/178] fix: UVMRegCbs had no post_predict, so that
 predicting a field with any callback raised AttributeError

---
 src/uvm/reg/uvm_reg_cbs.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index 69ae54b..52c69d4 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -238,22 +238,22 @@ class UVMRegCbs(UVMCallback):
         pass
 
 
-    #   // Task: post_predict
-    #   //
-    #   // Called by the <uvm_reg_field::predict()> method
-    #   // after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
-    #   //
-    #   // ~previous~ is the previous value in the mirror and
-    #   // ~value~ is the latest predicted value. Any change to ~value~ will
-    #   // modify the predicted mirror value.
-    #   //
-    #   virtual function void post_predict(input uvm_reg_field  fld,
-    #                                      input uvm_reg_data_t previous,
-    #                                      inout uvm_reg_data_t value,
-    #                                      input uvm_predict_e  kind,
-    #                                      input uvm_path_e     path,
-    #                                      input uvm_reg_map    map)
-    #   endfunction
+    def post_predict(self, fld, previous, value, kind, path, _map):
+        """
+           Function: post_predict
+
+           Called by the `UVMRegField.predict` method
+           after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
+
+        Args:
+            fld (UVMRegField): Field that was predicted
+            previous (int): Previous value in the mirror
+            value (int): The latest predicted value
+            kind: UVM_PREDICT_READ or UVM_PREDICT_WRITE
+            path: Access path
+            _map (UVMRegMap): Map of the access
+        """
+        pass
 
 
     def encode(self, data):
-- 
2.43.0


From 0883fd12b8e26760612441ba5c01ba8432d931e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 130/178] fix: UVMRegPredictor: a register of several beats
 must be predicted with the byte enables of all beats, not of the last one
 only

---
 src/uvm/reg/uvm_reg_predictor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_predictor.py b/src/uvm/reg/uvm_reg_predictor.py
index 801f47c..623235c 100644
--- a/src/uvm/reg/uvm_reg_predictor.py
+++ b/src/uvm/reg/uvm_reg_predictor.py
@@ -46,6 +46,7 @@ class UVMPredictS():
 
     def __init__(self):
         self.addr = {}
+        self.byte_en = 0
         self.reg_item = None
 
 
@@ -199,7 +200,10 @@ class UVMRegPredictor(UVMComponent):
             for i in range(len(map_info.addr)):
                 if rw.addr == map_info.addr[i]:
                     found = True
-                    reg_item.value[0] |= rw.data << (i * self.map.get_n_bytes()*8)
+                    n_bytes = self.map.get_n_bytes()
+                    reg_item.value[0] |= rw.data << (i * n_bytes * 8)
+                    predict_info.byte_en |= ((rw.byte_en & ((1 << n_bytes) - 1))
+                                             << (i * n_bytes))
                     predict_info.addr[rw.addr] = 1
 
                     if len(predict_info.addr) == len(map_info.addr):
@@ -216,7 +220,7 @@ class UVMRegPredictor(UVMComponent):
 
                         self.pre_predict(reg_item)
 
-                        ir.XsampleX(reg_item.value[0], rw.byte_en,
+                        ir.XsampleX(reg_item.value[0], predict_info.byte_en,
                                     reg_item.kind == UVM_READ, local_map)
 
                         blk = rg.get_parent()  # uvm_reg_block
@@ -224,7 +228,7 @@ class UVMRegPredictor(UVMComponent):
                                      reg_item.kind == UVM_READ,
                                      local_map)
 
-                        rg.do_predict(reg_item, predict_kind, rw.byte_en)
+                        rg.do_predict(reg_item, predict_kind, predict_info.byte_en)
                         if reg_item.kind == UVM_WRITE:
                             uvm_info("REG_PREDICT", "Observed WRITE transaction to register "
                                      + ir.get_full_name() + ": value='h"
-- 
2.43.0


From 97347750207a2656496e7486ec293e82beb99457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 131/178] fix: UVMMem.burst_write: a callback altering the
 values must not alter the list of the caller

---
 src/uvm/reg/uvm_mem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index f9c5b9d..f488dc0 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -721,7 +721,7 @@ class UVMMem(UVMObject):
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_WRITE
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = list(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
-- 
2.43.0


From eb7678bf6d488b2140daceb8404a339fc80a539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 132/178] fix: UVMRegHWResetSeq: a block whose map has submaps
 was skipped with all blocks below it

---
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index 35e237c..8b51674 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -29,7 +29,7 @@ from ...base.uvm_resource_db import UVMResourceDb
 from ...base.sv import sv
 from ...base import UVM_LOW, UVM_HIGH
 from ...base.uvm_globals import uvm_zero_delay
-from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, uvm_status_e
+from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, UVM_NO_HIER, uvm_status_e
 
 
 class UVMRegHWResetSeq(UVMRegSequence):
@@ -97,7 +97,6 @@ class UVMRegHWResetSeq(UVMRegSequence):
     
     async def do_block(self, blk):
         maps = []  # uvm_reg_map maps[$]
-        sub_maps = []  # uvm_reg_map sub_maps[$]
         no_rr1 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_TESTS", 0)
         no_rr2 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_HW_RESET_TEST", 0)
 
@@ -108,17 +107,13 @@ class UVMRegHWResetSeq(UVMRegSequence):
 
         # Iterate over all maps defined for the RegModel block
         for d in range(len(maps)):
-            regs = []  # uvm_reg[]
-            maps[d].get_submaps(sub_maps)
-            if len(sub_maps) != 0:
-                continue
-
             # Iterate over all registers in the map, checking accesses
             # Note: if map were in inner loop, could test simulataneous
             # access to same reg via different bus interfaces
+            # The registers of submaps belong to the sub-blocks tested below
 
             regs = []
-            maps[d].get_registers(regs)
+            maps[d].get_registers(regs, UVM_NO_HIER)
 
             for i in range(len(regs)):
                 status = 0
@@ -143,10 +138,10 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           sv.sformatf("Status was %s when reading reset value of register \"%s\" through map \"%s\".",
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
-            blks = []  # uvm_reg_block blks[$]
-            blk.get_blocks(blks)
-            for i in range(len(blks)):
-                await self.do_block(blks[i])
+        blks = []  # uvm_reg_block blks[$]
+        blk.get_blocks(blks)
+        for i in range(len(blks)):
+            await self.do_block(blks[i])
 
         #   endtask:do_block
 
-- 
2.43.0


From 113f78c34ef18f085bf4efa73dbf045dfcfc117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 133/178] fix: register and memory test sequences raised
 AttributeError instead of reporting a failed access

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 6 +++---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py   | 2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..65b2d13 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -125,7 +125,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           UVM_STATUS_NAMES[status], mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,7 +135,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -173,7 +173,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..8b11521 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..21b94e0 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
-- 
2.43.0


From 97ad8a5bef0fab5cf7f600a1ef36d0864565b58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 134/178] fix: UVMMemAccessSeq: the random value must not
 exceed the width of the memory, which raised false errors

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 65b2d13..8a1c860 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -115,9 +115,10 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             # - Write complement of random value via back door
             # - Read via front door and expect inverted random value
             for k in range(mem.get_size()):
-                val = sv.random() & (1 << n_bits) - 1  # cast to 'uvm_reg_data_t' removed
+                val = sv.random()  # cast to 'uvm_reg_data_t' removed
                 if n_bits > 32:
                     val = (val << 32) | sv.random()
+                val &= (1 << n_bits) - 1
                 if mode == "RO":
                     status = []
                     await mem.peek(status, k, exp)
-- 
2.43.0


From 7adc3712a2403366c58331f43a2b0db1b7eb34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 135/178] fix: UVMMemAccessSeq: a read-only memory raised
 TypeError

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 8a1c860..5b3602e 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -121,8 +121,10 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 val &= (1 << n_bits) - 1
                 if mode == "RO":
                     status = []
-                    await mem.peek(status, k, exp)
+                    exp = []
+                    mem.peek(status, k, exp)
                     status = status[0]
+                    exp = exp[0] if exp else 0
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-- 
2.43.0


From 3a3ae5c247a0c59b1dda1a5632dd99924ed03f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 136/178] fix: UVMMemWalkSeq: a block is excluded with
 NO_MEM_WALK_TEST as documented, not with NO_MEM_ACCESS_TEST

---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index 8b11521..68c11f2 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -258,7 +258,7 @@ class UVMMemWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
                 "NO_MEM_TESTS", 0) is not None or
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
-                "NO_MEM_ACCESS_TEST", 0) is not None):
+                "NO_MEM_WALK_TEST", 0) is not None):
             return
 
         # Iterate over all memories, checking accesses
-- 
2.43.0


From b825130dd40fddc3f976a9ab69b54b6a476490fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 137/178] fix: sv_obj: randomizing an object with a nested
 object given to rand() failed with TypeError

---
 src/uvm/base/sv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a4a0f4..b41d109 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -466,7 +466,7 @@ class sv_obj(crv.Randomized):
             if recurse:
                 for entry in self._sv_rand_obj:
                     obj = entry
-                    if hasattr(self, entry):
+                    if isinstance(entry, str):
                         obj = getattr(self, entry)
                     ok = ok and obj.randomize()
             super().randomize()
@@ -501,7 +501,7 @@ class sv_obj(crv.Randomized):
             ok = True
             for entry in self._sv_rand_obj:
                 obj = entry
-                if hasattr(self, entry):
+                if isinstance(entry, str):
                     obj = getattr(self, entry)
                 ok = ok and obj.randomize()
             super().randomize_with(*constr)
-- 
2.43.0


From 1beea14ce7feae87cbcb183a55054841bd68f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 138/178] fix: sv_obj: randomize() and randomize_with() ran
 pre_randomize() and post_randomize() twice

---
 src/uvm/base/sv.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index b41d109..8a54969 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -449,6 +449,14 @@ class sv_obj(crv.Randomized):
         """
         pass
 
+    def _randomize(self):
+        # randomize() and randomize_with() call the hooks, and so does crv
+        self.pre_randomize = self.post_randomize = lambda: None
+        try:
+            super()._randomize()
+        finally:
+            del self.pre_randomize, self.post_randomize
+
     def randomize(self, recurse=True):
         """
         Randomizes properties in object marked with rand(). Recurses to sub-objects
-- 
2.43.0


From 1f4c51d1e63d6af38f856f77db0a77697f6466c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 139/178] fix: sv_obj: randomize_with() and nested objects
 broke the random stability of an object

---
 src/uvm/base/sv.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a54969..f9d1fb9 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -476,7 +476,9 @@ class sv_obj(crv.Randomized):
                     obj = entry
                     if isinstance(entry, str):
                         obj = getattr(self, entry)
+                    state = random.getstate()
                     ok = ok and obj.randomize()
+                    random.setstate(state)
             super().randomize()
             self.post_randomize()
             self._sv_rand_state = random.getstate()
@@ -505,15 +507,19 @@ class sv_obj(crv.Randomized):
         if self._rand_mode is False:
             return True
         try:
+            random.setstate(self._sv_rand_state)
             self.pre_randomize()
             ok = True
             for entry in self._sv_rand_obj:
                 obj = entry
                 if isinstance(entry, str):
                     obj = getattr(self, entry)
+                state = random.getstate()
                 ok = ok and obj.randomize()
+                random.setstate(state)
             super().randomize_with(*constr)
             self.post_randomize()
+            self._sv_rand_state = random.getstate()
             return True and ok
         except Exception as e:
             raise RandomizeError(
-- 
2.43.0


From 6e5638229d837178f380ca4e83eae8af94c924a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 140/178] fix: sv.semaphore: get() handed out more keys than
 there were, and put() did not wake every waiter it could

---
 src/uvm/base/sv.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index f9d1fb9..e4239e6 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -33,7 +33,7 @@ from typing import List, Any
 import cocotb
 
 from cocotb_coverage import crv
-from cocotb.triggers import Lock, Timer, Combine, First
+from cocotb.triggers import Event, Lock, Timer, Combine, First
 from cocotb.utils import get_sim_time, simulator
 from cocotb_bus.bus import Bus
 
@@ -531,28 +531,28 @@ class semaphore():
     def __init__(self, count=1):
         self.max_count = count
         self.count = count
-        self.lock = Lock("sem_lock")
-        self.locked = False
+        self.m_waiting = []  # FIFO of (event, number of keys)
 
 
     async def get(self, count=1):
-        if self.count > count:
-            self.count -= count
-            await Timer(0, "NS")
-        elif count > self.max_count:
+        if count > self.max_count:
             raise Exception("Tried to get {} > max count {}".format(count,
                 self.max_count))
-        else:
-            await self.lock.acquire()
-            self.locked = True
+        if len(self.m_waiting) == 0 and self.count >= count:
             self.count -= count
+            await Timer(0, "NS")
+        else:
+            ev = Event("sem_event")
+            self.m_waiting.append((ev, count))
+            await ev.wait()
 
     def put(self, count=1):
         if self.count < self.max_count:
             self.count += count
-            if self.locked is True:
-                self.locked = False
-                self.lock.release()
+            while len(self.m_waiting) > 0 and self.m_waiting[0][1] <= self.count:
+                ev, n_keys = self.m_waiting.pop(0)
+                self.count -= n_keys
+                ev.set()
 
     def try_get(self, count=1):
         if self.count >= count:
-- 
2.43.0


From bc7283c176a130ffece3939ce130b88ea2804bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 141/178] fix: sv.test_plusargs()/value_plusargs() raised
 IndexError for a plusarg queried by its name

---
 src/uvm/base/sv.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index e4239e6..4fe1b54 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -278,14 +278,10 @@ class sv:
     @classmethod
     def value_plusargs(cls, arg_str, arr):
         plusarg_dict = cocotb.plusargs
-        for name in plusarg_dict:
-            full_arg = name + '='
-            for i in range(len(full_arg)):
-                if full_arg[i] != arg_str[i]:
-                    break
-                elif i == len(full_arg) - 1:
-                    arr.append(plusarg_dict[name])
-                    return plusarg_dict[name]
+        name = arg_str.split('=')[0]
+        if name in plusarg_dict:
+            arr.append(plusarg_dict[name])
+            return plusarg_dict[name]
 
     @classmethod
     async def fork_join(cls, forks: List):
-- 
2.43.0


From e9ef27e2472c9155c903ef594a8faff07bd68a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 142/178] fix: sv.sscanf() dropped the sign of negative numbers

---
 src/uvm/base/sv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 4fe1b54..e29910b 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -196,7 +196,7 @@ class sv:
             prefix = re_list[0][2]
             if re_list[0][0].match(acc):
                 # Keep adding chars while match holds
-                curr_match += char
+                curr_match = acc
             elif len(curr_match) > 0:
                 # When it stops matching, we're done for curr match
                 value = re_list[0][1](curr_match)
-- 
2.43.0


From caff73854dc56509d336cff1c822859c5d5dbd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 143/178] fix: UVMComponent.begin_tr() recorded only the first
 transaction of the main stream

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 10490b4..01023e6 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2289,7 +2289,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
-- 
2.43.0


From 9a72b3df06fcacc9f9c65c9eb3c7e1efe1268342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 144/178] fix: UVMTrDatabase could not be opened again after
 close_db() and wrote to the closed file

---
 src/uvm/base/uvm_tr_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..3960986 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -111,7 +111,7 @@ class UVMTrDatabase(UVMObject):
         """
         if self.m_is_opened:
             if self.do_close_db():
-                self.m_is_opened = 0
+                self.m_is_opened = False
         return self.m_is_opened == 0
 
     def is_open(self):
@@ -392,6 +392,7 @@ class UVMTextTrDatabase(UVMTrDatabase):
         if self.m_file != NO_FILE_OPEN:
             #fork // Needed because $fclose is a task
             sv.fclose(self.m_file)
+            self.m_file = NO_FILE_OPEN
             #join_none
             self.m_filename_dap.unlock()
         return 1
-- 
2.43.0


From c75ea9de8bbf7f6bdde0b6560b9aeab1386e6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 145/178] fix: UVMTrDatabase.establish_link() rejected every
 link, UVMRelatedLink could not be set

---
 src/uvm/base/uvm_links.py       | 34 +++++++++------------------------
 src/uvm/base/uvm_tr_database.py | 21 ++++++++++----------
 2 files changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..4fd834d 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -404,34 +404,18 @@ class UVMRelatedLink(UVMLinkBase):
 
 
     #   // Group: Implementation Callbacks
-    #
-    #   // Function: do_set_lhs
-    #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
 
-    #   // Function: do_get_lhs
-    #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
+    def do_set_lhs(self, lhs):
+        self.m_lhs = lhs
 
-    #   // Function: do_set_rhs
-    #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_get_lhs(self):
+        return self.m_lhs
 
-    #   // Function: do_get_rhs
-    #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+    def do_set_rhs(self, rhs):
+        self.m_rhs = rhs
+
+    def do_get_rhs(self):
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 3960986..ad9a157 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -243,6 +243,7 @@ class UVMTrDatabase(UVMObject):
         if lhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
+            return
 
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
@@ -250,24 +251,22 @@ class UVMTrDatabase(UVMObject):
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
-            UVMRecorder)):
+        if not (sv.cast(s_lhs, lhs, UVMTrStream) or sv.cast(r_lhs, lhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
-        else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if not (sv.cast(s_rhs, rhs, UVMTrStream) or sv.cast(r_rhs, rhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
                 rhs.get_type_name()))
             return
-        else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
+
+        s_lhs = s_lhs[0] if s_lhs else None
+        r_lhs = r_lhs[0] if r_lhs else None
+        s_rhs = s_rhs[0] if s_rhs else None
+        r_rhs = r_rhs[0] if r_rhs else None
 
         if r_lhs is not None:
             s_lhs = r_lhs.get_stream()
@@ -434,8 +433,8 @@ class UVMTextTrDatabase(UVMTrDatabase):
 
         sv.cast(cast_r_lhs, lhs, UVMRecorder)
         sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
+        r_lhs = cast_r_lhs[0] if cast_r_lhs else None
+        r_rhs = cast_r_rhs[0] if cast_r_rhs else None
 
         if (r_lhs is None or r_rhs is None):
             return
-- 
2.43.0


From 9556c0d60bd7792cb1cf7cb5c9905d2437e67e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 146/178] fix: UVMTransaction.begin_child_tr() did not link the
 parent

---
 src/uvm/base/uvm_transaction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..cb6fc0e 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -22,6 +22,7 @@
 #-----------------------------------------------------------------------------
 
 from .sv import sv
+from .uvm_links import UVMParentChildLink
 from .uvm_recorder import UVMRecorder
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    link = UVMParentChildLink.get_link(parent_recorder, self.tr_recorder)
+                    db.establish_link(link)
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
-- 
2.43.0


From 6a8932372b115a64da4a5decb272067535af6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 147/178] fix: a freed UVMRecorder kept its handle

---
 src/uvm/base/uvm_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..96b4334 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -378,7 +378,7 @@ class UVMRecorder(UVMObject):
 
         Returns:
         """
-        if (self.is_open() is False and self.is_closed() is False):
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
-- 
2.43.0


From 12c94aa6bdde465aeb1621a5b1643957c3a142d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 148/178] fix: debug output when recording automated fields

---
 src/uvm/macros/uvm_object_defines.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 66a71ef..d2b5e3f 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -308,7 +308,6 @@ def uvm_field_utils_start(T):
             for v in vals:
                 mask_v = masks[v]
                 if not(mask_v & UVM_NORECORD):
-                    print("Recording now attr " + v)
                     val = getattr(self, v)
                     if isinstance(val, int):
                         T_cont.recorder.record_field(v, val, 32)
-- 
2.43.0


From 8ea2c2ea1e7b2354adb1f5872e1d5dfd5090db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 149/178] fix: UVMTextTrDatabase.set_file_name() raised
 NotImplementedError (uvm_simple_lock_dap.try_set() was missing)

---
 src/uvm/dap/uvm_simple_lock_dap.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/uvm/dap/uvm_simple_lock_dap.py b/src/uvm/dap/uvm_simple_lock_dap.py
index 36207a6..673815b 100644
--- a/src/uvm/dap/uvm_simple_lock_dap.py
+++ b/src/uvm/dap/uvm_simple_lock_dap.py
@@ -72,15 +72,11 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to the DAP being locked.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
-    #
+    def try_set(self, value):
+        if self.m_locked:
+            return False
+        self.m_value = value
+        return True
 
     #   // Function: get
     #   // Returns the current value stored within the DAP
-- 
2.43.0


From f4d257936c675d9f505ff74641e1637ef2e550e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 150/178] fix: recording an object with an empty (None) object
 field raised TypeError

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index d2b5e3f..263bb56 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -311,7 +311,7 @@ def uvm_field_utils_start(T):
                     val = getattr(self, v)
                     if isinstance(val, int):
                         T_cont.recorder.record_field(v, val, 32)
-                    elif isinstance(val, UVMObject):
+                    elif isinstance(val, UVMObject) or val is None:
                         T_cont.recorder.record_object(v, val)
                     elif isinstance(val, str):
                         T_cont.recorder.record_string(v, val)
-- 
2.43.0


From 0281cef2ad56c59079274d3cbad4d847b9bc2f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 151/178] fix: a memory of 0 bits is reported instead of
 raising AttributeError

---
 src/uvm/reg/uvm_mem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index f488dc0..890c426 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -106,12 +106,12 @@ class UVMMem(UVMObject):
             has_coverage=UVM_NO_COVERAGE):
         UVMObject.__init__(self, name)
         self.m_locked = 0
+        self.m_fname = ""
+        self.m_parent = None
         if n_bits == 0:
             uvm_error("RegModel", "Memory '" + self.get_full_name() + "' cannot have 0 bits")
             n_bits = 1
 
-        self.m_fname = ""
-        self.m_parent = None
         self.m_size      = size
         self.m_n_bits    = n_bits
         self.m_backdoor  = None
-- 
2.43.0


From b198cbd6120c66e6ca08879229f4d42b0e7d7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 152/178] fix: a second reserved memory region is compared with
 the first (region accessors were missing)

---
 src/uvm/reg/uvm_mem_mam.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/uvm/reg/uvm_mem_mam.py b/src/uvm/reg/uvm_mem_mam.py
index 16805eb..3870be6 100644
--- a/src/uvm/reg/uvm_mem_mam.py
+++ b/src/uvm/reg/uvm_mem_mam.py
@@ -392,8 +392,9 @@ class UVMMemRegion:
     #   // Return the address offset, within the memory,
     #   // where self memory region starts.
     #   //
-    #   extern def bit [63:0] get_start_offset(self):
-    #
+    def get_start_offset(self):
+        return self.Xstart_offsetX
+
     #
     #   // Function: get_end_offset
     #   //
@@ -402,8 +403,9 @@ class UVMMemRegion:
     #   // Return the address offset, within the memory,
     #   // where self memory region ends.
     #   //
-    #   extern def bit [63:0] get_end_offset(self):
-    #
+    def get_end_offset(self):
+        return self.Xend_offsetX
+
     #
     #   // Function: get_len
     #   //
@@ -412,8 +414,9 @@ class UVMMemRegion:
     #   // Return the number of consecutive memory locations
     #   // (not necessarily bytes) in the allocated region.
     #   //
-    #   extern def int unsigned get_len(self):
-    #
+    def get_len(self):
+        return self.len
+
     #
     #   // Function: get_n_bytes
     #   //
@@ -424,8 +427,9 @@ class UVMMemRegion:
     #   // the number of bytes in an allocated region may
     #   // be greater than the number of requested or reserved bytes.
     #   //
-    #   extern def int unsigned get_n_bytes(self):
-    #
+    def get_n_bytes(self):
+        return self.n_bytes
+
     #
     #   // Function: release_region
     #   //
@@ -591,7 +595,8 @@ class UVMMemRegion:
     #                    input  int                lineno = 0)
     #
     #
-    #   extern def string convert2string(self):
+    def convert2string(self):
+        return sv.sformatf("['h%h:'h%h]", self.Xstart_offsetX, self.Xend_offsetX)
     #
     #endclass
 
-- 
2.43.0


From f652074e0659a7b8f7abd4f65f942da05df40bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 153/178] fix: a direct prediction of a field is reported and
 fails while its register is being accessed

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index b9f1a2b..35d5391 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1304,7 +1304,7 @@ class UVMRegField(UVMObject):
                 cb = cbs.next()
             field_val &= self._get_mask()
 
-        elif UVM_PREDICT_DIRECT:
+        elif kind == UVM_PREDICT_DIRECT:
             if self.m_parent.is_busy():
                 uvm_report_warning("RegModel", ("Trying to predict value of field '"
                    + self.get_name() + "' while register '" + self.m_parent.get_full_name()
-- 
2.43.0


From 2e9e91fa08ed5c479e3c371446f262c1facefa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 154/178] fix: uvm_do_on no longer passes a dict as a
 constraint

---
 src/uvm/macros/uvm_sequence_defines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 6d93093..3f9a6a7 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -155,7 +155,8 @@ async def uvm_do_on(seq_obj, SEQ_OR_ITEM, SEQR):
     the sequence in which the macro is invoked, and it sets the sequencer to the
     specified ~SEQR~ argument.
     """
-    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, {})
+    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1,
+                             lambda: True)
 
 
 #// MACRO: `uvm_do_on_pri
-- 
2.43.0


From 82a42486e64551c71a7046f66a0063eabd865fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 155/178] fix: uvm_do_on and its variants send an item to the
 sequencer given

---
 src/uvm/macros/uvm_sequence_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_sequence_defines.py b/src/uvm/macros/uvm_sequence_defines.py
index 3f9a6a7..901846e 100644
--- a/src/uvm/macros/uvm_sequence_defines.py
+++ b/src/uvm/macros/uvm_sequence_defines.py
@@ -223,7 +223,7 @@ async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS)
         await SEQ_OR_ITEM.start(SEQR, seq_obj, PRIORITY, 0)
     else:
         # TODO handle constraints
-        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
+        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY, SEQR)
         if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
             uvm_warning("RNDFLD", "Randomization failed in uvm_do_with action")
         await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)
-- 
2.43.0


From 6557da2511dff3e64b37fbabd69ab5e8515fa841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 156/178] fix: stop_sequences stops the sequences of a
 sequencer (it crashed on the first)

---
 src/uvm/seq/uvm_sequencer_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 088595b..c3d69a8 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1050,7 +1050,7 @@ class UVMSequencerBase(UVMComponent):
         # when deleting all sequences
         if sequence_id == -1:
             if self.reg_sequences.has_first():
-                return self.reg_sequences.first()
+                return self.reg_sequences[self.reg_sequences.first()]
             return None
 
         if not self.reg_sequences.exists(sequence_id):
-- 
2.43.0


From 5e548758bd49b2fc7f76f61190901d89db57e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 157/178] fix: stop_sequences drops the automatic phase
 objection of the sequences it stops

---
 src/uvm/seq/uvm_sequence_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index c5f6740..8158013 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -906,9 +906,6 @@ class UVMSequenceBase(UVMSequenceItem):
             self.m_kill()
         else:
             self.m_sequencer.kill_sequence(self)
-        # We need to drop the objection if we raised it...
-        if self.get_automatic_phase_objection():
-            self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -932,6 +929,9 @@ class UVMSequenceBase(UVMSequenceItem):
         if (self.m_parent_sequence is not None and
                 self in self.m_parent_sequence.children_array):
             del self.m_parent_sequence.children_array[self]
+        # We need to drop the objection if we raised it...
+        if self.get_automatic_phase_objection():
+            self.m_safe_drop_starting_phase("automatic phase objection")
         if process is not None:
             process.kill()
 
-- 
2.43.0


From 0f7cf2bf32a2e1af26131dafdd8f65b466b29ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 158/178] fix: a phase callback keeps the name it is given

---
 src/uvm/base/uvm_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index d71400e..cbe8372 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1695,7 +1695,7 @@ class UVMPhaseCb(UVMCallback):
         Args:
             name:
         """
-        UVMCallback.__init__(self)
+        UVMCallback.__init__(self, name)
 
     def phase_state_change(self, phase, change):
         """
-- 
2.43.0


From ab11b289687c03162c50f480510587ee4effc644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 159/178] fix: a phase does not announce ready_to_end while a
 phase that ends with it holds objections

---
 src/uvm/base/uvm_phase.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index cbe8372..bf36879 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1572,7 +1572,11 @@ class UVMPhase(UVMObject):
             #foreach(siblings[sib]) begin
             for sib in siblings:
                 # sibling must be at least executing
-                await sib.wait_for_state(UVM_PHASE_EXECUTING, UVM_GTE)
+                if sib.get_state() < UVM_PHASE_EXECUTING:
+                    await sib.wait_for_state(UVM_PHASE_EXECUTING, UVM_GTE)
+                    # let it object, and check all the others again
+                    await uvm_wait_for_nba_region()
+                    need_to_check_all = True
                 if ((sib.phase_done is not None) and
                         (sib.phase_done.get_objection_total(top) != 0)):
                     self.set_state(UVM_PHASE_EXECUTING)
-- 
2.43.0


From 1c89c3f0aca6e9942db24f15b5e56978493693ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 160/178] fix: clear() warns when it discards outstanding
 objections

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 9be8b17..48215e1 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -721,7 +721,7 @@ class UVMObjection(UVMReportObject):
         if name == "":
             name = "uvm_top"
 
-        if (self.m_top_all_dropped is False and
+        if (not self.m_top_all_dropped and
                 self.get_objection_total(self.m_top) > 0):
             uvm_report_warning("OBJTN_CLEAR",("Object '" + name
                 + "' cleared objection counts for " + self.get_name()))
-- 
2.43.0


From 6560ce3cbc79155c32b270eacbafbbaca75d2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:13 +0000
Subject: [PATCH 161/178] fix: get_response by transaction id no longer misses
 a response that arrives while another one is taken

---
 src/uvm/seq/uvm_sequence_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 8158013..3dc1bdf 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -1268,8 +1268,10 @@ class UVMSequenceBase(UVMSequenceItem):
                     self.m_resp_queue_event.set()
                     return
             #wait (self.response_queue.size() != queue_size)
-            await wait(lambda: self.response_queue.size() != queue_size,
-                       self.m_resp_queue_event)
+            # another thread may take a response while one arrives: the size
+            # alone does not tell that the queue changed
+            self.m_resp_queue_event.clear()
+            await self.m_resp_queue_event.wait()
 
 
     def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
-- 
2.43.0


From 2f365ad622535f6648ec648c49d7e6bd131a1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 162/178] fix: a driver that asks again after stop_sequences()
 interrupted its item gets the next item

---
 src/uvm/seq/uvm_sequencer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index 29b0477..62a0e5d 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -83,8 +83,8 @@ class UVMSequencer(UVMSequencerParamBase):
         idle state.
         """
         super().stop_sequences()
-        self.sequence_item_requested  = 0
-        self.get_next_item_called     = 0
+        self.sequence_item_requested  = False
+        self.get_next_item_called     = False
         # Empty the request fifo
         if self.m_req_fifo.used():
             uvm_report_info(self.get_full_name(),
-- 
2.43.0


From a0e538c5def119708394ffbcbe1fe51e040bdeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:24 +0000
Subject: [PATCH 163/178] fix: translate a burst write as a write in
 UVMRegSequence.do_reg_item

---
 src/uvm/reg/uvm_reg_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_sequence.py b/src/uvm/reg/uvm_reg_sequence.py
index 37a7c0f..e16efe1 100644
--- a/src/uvm/reg/uvm_reg_sequence.py
+++ b/src/uvm/reg/uvm_reg_sequence.py
@@ -28,7 +28,7 @@ from ..seq.uvm_sequence import UVMSequence
 from ..macros import uvm_object_utils, uvm_fatal, uvm_warning, uvm_info
 from ..base import UVM_LOW, UVM_HIGH
 from ..base.uvm_globals import uvm_zero_delay
-from .uvm_reg_model import UVM_WRITE
+from .uvm_reg_model import UVM_WRITE, UVM_BURST_WRITE
 
 #//------------------------------------------------------------------------------
 #// TITLE: Register Sequence Classes
@@ -195,7 +195,7 @@ class UVMRegSequence(UVMSequence):
             self.upstream_parent = rw.parent
             rw.parent = self
 
-        if (rw.kind == UVM_WRITE):
+        if rw.kind in (UVM_WRITE, UVM_BURST_WRITE):
             await rw.local_map.do_bus_write(rw, self.m_sequencer, self.adapter)
         else:
             await rw.local_map.do_bus_read(rw, self.m_sequencer, self.adapter)
-- 
2.43.0


From d7c0178b565d67ce8ea1103d8806d99de9f96f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 164/178] fix: UVMRegSequence.body blocks forever without
 reg_seqr instead of crashing

---
 src/uvm/reg/uvm_reg_sequence.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_sequence.py b/src/uvm/reg/uvm_reg_sequence.py
index e16efe1..d2c68de 100644
--- a/src/uvm/reg/uvm_reg_sequence.py
+++ b/src/uvm/reg/uvm_reg_sequence.py
@@ -23,7 +23,7 @@
 #//
 
 import cocotb
-from cocotb.triggers import Timer
+from cocotb.triggers import Event, Timer
 from ..seq.uvm_sequence import UVMSequence
 from ..macros import uvm_object_utils, uvm_fatal, uvm_warning, uvm_info
 from ..base import UVM_LOW, UVM_HIGH
@@ -156,8 +156,7 @@ class UVMRegSequence(UVMSequence):
                "Executing RegModel translation sequence on sequencer " +
                self.m_sequencer.get_full_name() + "' does not have an upstream sequencer defined. "
                + "Execution of register items available only via direct calls to 'do_reg_item'")
-            #wait(0);
-            await uvm_zero_delay()
+            await Event().wait()  # SV: wait(0)
         uvm_info("REG_XLATE_SEQ_START",
            "Starting RegModel translation sequence on sequencer " +
            self.m_sequencer.get_full_name() + "'", UVM_LOW)
-- 
2.43.0


From 5c467040d1a3e4a0f5ce2a7d179aa3595111854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:56 +0000
Subject: [PATCH 165/178] fix: factory debug_create_by_name of an unknown type
 warns instead of crashing

---
 src/uvm/base/uvm_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 99ff160..857a940 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -885,8 +885,8 @@ class UVMDefaultFactory(UVMFactory):
         if requested_type is None:
             if (not self.m_type_names.exists(requested_type_name) and
                     not self.m_lookup_strs.exists(requested_type_name)):
-                uvm_report_warning("Factory Warning", {"The factory does not recognize '",
-                    requested_type_name,"' as a registered type."}, UVM_NONE)
+                uvm_report_warning("Factory Warning", "The factory does not recognize '"
+                    + requested_type_name + "' as a registered type.", UVM_NONE)
                 return
             UVMDefaultFactory.m_debug_pass = 1
             result = self.find_override_by_name(requested_type_name,full_inst_path)
-- 
2.43.0


From c1bd4e2e435f6db2edb2dc0094a4d8fdf922da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 166/178] fix: print_factory lists the instance overrides of
 every type, not only of the last one

---
 src/uvm/base/uvm_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 857a940..b8d8fe9 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -738,7 +738,7 @@ class UVMDefaultFactory(UVMFactory):
 
         # sort the override queues
         for key in self.m_inst_override_queues:
-            obj = self.m_inst_override_queues[key]
+            obj = key
             tmp = obj.get_type_name()
             if tmp == "":
                 tmp = "__unnamed_id_" + str(id)
-- 
2.43.0


From ada8149c3564d5d1651a59362475a8fe2e3ee7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:49 +0000
Subject: [PATCH 167/178] fix: factory shows the overrides of a loop also after
 an earlier debug request

---
 src/uvm/base/uvm_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index b8d8fe9..f4bd1e3 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -888,17 +888,17 @@ class UVMDefaultFactory(UVMFactory):
                 uvm_report_warning("Factory Warning", "The factory does not recognize '"
                     + requested_type_name + "' as a registered type.", UVM_NONE)
                 return
-            UVMDefaultFactory.m_debug_pass = 1
+            UVMDefaultFactory.m_debug_pass = True
             result = self.find_override_by_name(requested_type_name,full_inst_path)
         else:
-            UVMDefaultFactory.m_debug_pass = 1
+            UVMDefaultFactory.m_debug_pass = True
             if not self.m_types.exists(requested_type):
                 self.register(requested_type)
             result = self.find_override_by_type(requested_type,full_inst_path)
             if requested_type_name == "":
                 requested_type_name = requested_type.get_type_name()
         self.m_debug_display(requested_type_name, result, full_inst_path)
-        UVMDefaultFactory.m_debug_pass = 0
+        UVMDefaultFactory.m_debug_pass = False
         for obj in self.m_override_info:
             obj.selected = 0
 
-- 
2.43.0


From 2b975de5726bf0324e6b0ec3199e9767e171e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 168/178] fix: writing a resource with an equal but different
 object or type takes effect

---
 src/uvm/base/uvm_resource.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index babe37f..522a704 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -817,7 +817,9 @@ class UVMResource(UVMResourceBase):
 
         # Set the modified bit and record the transaction only if the value
         # has actually changed.
-        if self.val == t:
+        # (an equal value of another type, or another object, is a change)
+        if self.val is t or (type(self.val) is type(t) and self.val == t
+                             and isinstance(t, (int, float, str, bytes))):
             return
 
         self.record_write_access(accessor)
-- 
2.43.0


From d61e241879d7d1966ffef27377b371f01e547d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:08 +0000
Subject: [PATCH 169/178] fix: a transaction stream can be asked whether it is
 open or closed

---
 src/uvm/base/uvm_tr_stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_tr_stream.py b/src/uvm/base/uvm_tr_stream.py
index 938f7f3..ac1ff07 100644
--- a/src/uvm/base/uvm_tr_stream.py
+++ b/src/uvm/base/uvm_tr_stream.py
@@ -105,6 +105,8 @@ class UVMTrStream(UVMObject):
         #   // Active records in the stream (active == open or closed)
         self.m_records = {}  # bit [uvm_recorder]
         self.m_warn_null_cfg = 0
+        self.m_is_opened = False
+        self.m_is_closed = False
 
 
     #   // Variable- m_ids_by_stream
-- 
2.43.0


From a46c4fd834b2404b09983a127ac6d9c710ada8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:14 +0000
Subject: [PATCH 170/178] fix: closing a recorder again is ignored

---
 src/uvm/base/uvm_recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 96b4334..5f7d48d 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -199,7 +199,7 @@ class UVMRecorder(UVMObject):
         if (close_time == 0):
             close_time = sv.realtime()
 
-        if self.is_open() is False:
+        if not self.is_open():
             return
 
         self.do_close(close_time)
-- 
2.43.0


From ab133de6c0c96f1aff9dbf5566d510fc8666e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:31 +0000
Subject: [PATCH 171/178] fix: the global event and barrier pools hold events
 and barriers

---
 src/uvm/base/uvm_pool.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 83a4f99..cb634ec 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -276,9 +276,10 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             UVMObjectStringPool: Global pool
         """
-        if UVMObjectStringPool.m_global_pool is None:
-            UVMObjectStringPool.m_global_pool = UVMObjectStringPool("global_pool")
-        return UVMObjectStringPool.m_global_pool
+        # each pool class (e.g. UVMEventPool) has its own global pool
+        if cls.__dict__.get('m_global_pool') is None:
+            cls.m_global_pool = cls("global_pool")
+        return cls.m_global_pool
 
 
     @classmethod
@@ -292,7 +293,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         Returns:
             any: Object matching the key in the global pool.
         """
-        gpool = UVMObjectStringPool.get_global_pool()
+        gpool = cls.get_global_pool()
         return gpool.get(key)
 
 
-- 
2.43.0


From 1464e94f94602fd4d5153fc3a276aa131d2d8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 172/178] fix: printed resources show their contents and audit
 trail

---
 src/uvm/base/uvm_resource.py | 43 +++++++++++++-----------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 522a704..fa97778 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -476,9 +476,9 @@ class UVMResourceBase(UVMObject):
     #//
     #// Implementation of do_print which is called by print().
 
-    #function void do_print (uvm_printer printer)
-    #  printer.print_string("",$sformatf("%s [%s] : %s", get_name(), get_scope(), convert2string()))
-    #endfunction
+    def do_print(self, printer):
+        printer.print_string("", "{} [{}] : {}".format(self.get_name(),
+            self.get_scope(), self.convert2string()))
 
 
     def record_read_access(self, accessor=None):
@@ -548,7 +548,7 @@ class UVMResourceBase(UVMObject):
 
         # Update the accessor record
         access_record.read_count += 1
-        # TODO access_record.read_time = $realtime
+        access_record.read_time = sv.realtime()
         self.access[_str] = access_record
 
     def record_write_access(self, accessor=None):
@@ -572,7 +572,7 @@ class UVMResourceBase(UVMObject):
                     access_record = Access_t()
                     self.init_access_record(access_record)
                 access_record.write_count += 1
-                # TODO access_record.write_time = $realtime
+                access_record.write_time = sv.realtime()
                 self.access[_str] = access_record
 
 
@@ -580,28 +580,15 @@ class UVMResourceBase(UVMObject):
     #//
     #// Dump the access records for this resource
     #//
-    #virtual function void print_accessors()
-
-    #  string str
-    #  uvm_component comp
-    #  uvm_resource_types::access_t access_record
-    #  string qs[$]
-    #
-    #  if(access.num() == 0)
-    #    return
-
-    #  foreach (access[i]):
-    #    str = i
-    #    access_record = access[str]
-    #    qs.push_back($sformatf("%s reads: %0d @ %0t  writes: %0d @ %0t\n",str,
-    #             access_record.read_count,
-    #             access_record.read_time,
-    #             access_record.write_count,
-    #             access_record.write_time))
-    #  end
-    #  `uvm_info("UVM/RESOURCE/ACCESSOR",`UVM_STRING_QUEUE_STREAMING_PACK(qs),UVM_NONE)
-
-    #endfunction
+    def print_accessors(self):
+        qs = []
+        for name in self.access:
+            access_record = self.access[name]
+            qs.append("{} reads: {} @ {}  writes: {} @ {}\n".format(name,
+                access_record.read_count, access_record.read_time,
+                access_record.write_count, access_record.write_time))
+        if len(qs) > 0:
+            uvm_info("UVM/RESOURCE/ACCESSOR", "".join(qs), UVM_NONE)
 
     def init_access_record(self, access_record):
         """
@@ -1672,7 +1659,7 @@ class UVMResourcePool:
         for i in range(len(rq)):
             r = rq[i]
             r.print_obj(printer)
-            if audit is True:
+            if audit:
                 r.print_accessors()
 
 
-- 
2.43.0


From c2b762b6a865d25fae569c86206a901fef816101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:00 +0000
Subject: [PATCH 173/178] fix: the unused configuration settings can be found

---
 src/uvm/base/uvm_resource.py | 42 ++++++++++++------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index fa97778..7decc82 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1598,34 +1598,20 @@ class UVMResourcePool:
     #//
     #// Locate all the resources that have at least one write and no reads
 
-    #function uvm_resource_types::rsrc_q_t find_unused_resources()
-
-    #  uvm_resource_types::rsrc_q_t rq
-    #  uvm_resource_types::rsrc_q_t q = new
-    #  int unsigned i
-    #  uvm_resource_base r
-    #  uvm_resource_types::access_t a
-    #  int reads
-    #  int writes
-
-    #  foreach (rtab[name]):
-    #    rq = rtab[name]
-    #    for(int i=0; i<rq.size(); ++i):
-    #      r = rq.get(i)
-    #      reads = 0
-    #      writes = 0
-    #      foreach(r.access[str]):
-    #        a = r.access[str]
-    #        reads += a.read_count
-    #        writes += a.write_count
-    #      end
-    #      if(writes > 0 && reads == 0)
-    #        q.push_back(r)
-    #    end
-    #  end
-    #  return q
-    #endfunction
-
+    def find_unused_resources(self):
+        q = UVMQueue()
+        for name in self.rtab:
+            rq = self.rtab[name]
+            for i in range(len(rq)):
+                r = rq[i]
+                reads = 0
+                writes = 0
+                for accessor in r.access:
+                    reads += r.access[accessor].read_count
+                    writes += r.access[accessor].write_count
+                if writes > 0 and reads == 0:
+                    q.push_back(r)
+        return q
 
     #// Function: print_resources
 
-- 
2.43.0


From 369a2ae38f51e8c90bf399c1510efda905763b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:16 +0000
Subject: [PATCH 174/178] fix: an objection can be copied, and its copy has its
 own counts

---
 src/uvm/base/uvm_objection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 48215e1..a66907b 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1161,10 +1161,10 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
-- 
2.43.0


From 780a4f2c8cd99ccbeb945a45eabe9332cfbd37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:26 +0000
Subject: [PATCH 175/178] fix: the weighted, strict and user arbitration modes
 grant a request

---
 src/uvm/seq/uvm_sequencer_base.py | 148 +++++++++++++-----------------
 1 file changed, 63 insertions(+), 85 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index c3d69a8..a8829aa 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -35,7 +35,8 @@ from ..base.uvm_factory import UVMObjectWrapper
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
-        UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_LOW)
+        UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM, UVM_SEQ_ARB_STRICT_FIFO,
+        UVM_SEQ_ARB_STRICT_RANDOM, UVM_SEQ_ARB_USER, UVM_SEQ_ARB_WEIGHTED, UVM_LOW)
 from ..base.uvm_pool import UVMPool
 from ..base.uvm_queue import UVMQueue
 from ..base.uvm_globals import uvm_wait_for_nba_region, uvm_zero_delay
@@ -810,28 +811,21 @@ class UVMSequencerBase(UVMComponent):
             if (avail_sequences.size() == 1):
                 return cast(int, avail_sequences[0])
 
-        # TODO finish this function
-        #  //  Weighted Priority Distribution
-        #  // Pick an available sequence based on weighted priorities of available sequences
-        #  if (self.m_arbitration == UVM_SEQ_ARB_WEIGHTED):
-        #    sum_priority_val = 0
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      sum_priority_val += m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #    end
-        #
-        #    temp = $urandom_range(sum_priority_val-1, 0)
-        #
-        #    sum_priority_val = 0
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      if ((m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) +
-        #           sum_priority_val) > temp):
-        #        return avail_sequences[i]
-        #      end
-        #      sum_priority_val += m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #    end
-        #    uvm_report_fatal("Sequencer", "UVM Internal error in weighted arbitration code", UVM_NONE)
-        #  end
+        #  Weighted Priority Distribution
+        # Pick an available sequence based on weighted priorities of available sequences
+        if self.m_arbitration == UVM_SEQ_ARB_WEIGHTED:
+            for i in range(len(avail_sequences)):
+                sum_priority_val += self.m_get_seq_item_priority(
+                    self.arb_sequence_q.get(avail_sequences[i]))
+
+            temp = sv.urandom_range(0, sum_priority_val-1)
 
+            sum_priority_val = 0
+            for i in range(len(avail_sequences)):
+                sum_priority_val += self.m_get_seq_item_priority(
+                    self.arb_sequence_q.get(avail_sequences[i]))
+                if sum_priority_val > temp:
+                    return cast(int, avail_sequences[i])
 
         # Random Distribution
         if self.m_arbitration == UVM_SEQ_ARB_RANDOM:
@@ -839,45 +833,36 @@ class UVMSequencerBase(UVMComponent):
             return cast(int, avail_sequences[i])
 
 
-        #  //  Strict Fifo
-        #  if ((self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO) || self.m_arbitration == UVM_SEQ_ARB_STRICT_RANDOM):
-        #    highest_pri = 0
-        #    // Build a list of sequences at the highest priority
-        #    for (i = 0; i < avail_sequences.size(); i++):
-        #      if (m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) > highest_pri):
-        #        // New highest priority, so start new list
-        #        highest_sequences.delete()
-        #        highest_sequences.push_back(avail_sequences[i])
-        #        highest_pri = m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]])
-        #      end
-        #      else if (m_get_seq_item_priority(self.arb_sequence_q[avail_sequences[i]]) == highest_pri):
-        #        highest_sequences.push_back(avail_sequences[i])
-        #      end
-        #    end
-        #
-        #    // Now choose one based on arbitration type
-        #    if (self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO):
-        #      return(highest_sequences[0])
-        #    end
-        #
-        #    i = $urandom_range(highest_sequences.size()-1, 0)
-        #    return highest_sequences[i]
-        #  end
-        #
-        #  if (self.m_arbitration == UVM_SEQ_ARB_USER):
-        #    i = user_priority_arbitration( avail_sequences)
-        #
-        #    // Check that the returned sequence is in the list of available sequences.  Failure to
-        #    // use an available sequence will cause highly unpredictable results.
-        #    highest_sequences = avail_sequences.find with (item == i)
-        #    if (highest_sequences.size() == 0):
-        #      uvm_report_fatal("Sequencer",
-        #          $sformatf("Error in User arbitration, sequence %0d not available\n%s",
-        #                    i, convert2string()), UVM_NONE)
-        #    end
-        #    return(i)
-        #  end
-        #
+        #  Strict Fifo
+        if self.m_arbitration in (UVM_SEQ_ARB_STRICT_FIFO, UVM_SEQ_ARB_STRICT_RANDOM):
+            # Build a list of sequences at the highest priority
+            for i in range(len(avail_sequences)):
+                pri = self.m_get_seq_item_priority(
+                    self.arb_sequence_q.get(avail_sequences[i]))
+                if pri > highest_pri:
+                    # New highest priority, so start new list
+                    highest_sequences = UVMQueue()
+                    highest_pri = pri
+                if pri == highest_pri:
+                    highest_sequences.push_back(avail_sequences[i])
+
+            # Now choose one based on arbitration type
+            if self.m_arbitration == UVM_SEQ_ARB_STRICT_FIFO:
+                return cast(int, highest_sequences[0])
+
+            i = sv.urandom_range(0, highest_sequences.size()-1)
+            return cast(int, highest_sequences[i])
+
+        if self.m_arbitration == UVM_SEQ_ARB_USER:
+            i = self.user_priority_arbitration(avail_sequences)
+
+            # Check that the returned sequence is in the list of available sequences.  Failure to
+            # use an available sequence will cause highly unpredictable results.
+            if i not in list(avail_sequences):
+                self.uvm_report_fatal("Sequencer", sv.sformatf(
+                    "Error in User arbitration, sequence %0d not available", i), UVM_NONE)
+            return i
+
         uvm_fatal("Sequencer", "Internal error: Failed to choose sequence")
         return -1
 
@@ -1161,7 +1146,23 @@ class UVMSequencerBase(UVMComponent):
         await wait(lambda: self.m_is_relevant_completed > 0,
                    self.m_event_value_changed)
 
-    #  extern protected function int    m_get_seq_item_priority(uvm_sequence_request seq_q_entry)
+    def m_get_seq_item_priority(self, seq_q_entry):
+        # If the priority was set on the item, then that is used
+        if seq_q_entry.item_priority != -1:
+            if seq_q_entry.item_priority <= 0:
+                self.uvm_report_fatal("SEQITEMPRI", sv.sformatf(
+                    "Sequence item from %s has illegal priority: %0d",
+                    seq_q_entry.sequence_ptr.get_full_name(),
+                    seq_q_entry.item_priority), UVM_NONE)
+            return seq_q_entry.item_priority
+        # Otherwise, use the priority of the calling sequence
+        if seq_q_entry.sequence_ptr.get_priority() < 0:
+            self.uvm_report_fatal("SEQDEFPRI", sv.sformatf(
+                "Sequence %s has illegal priority: %0d",
+                seq_q_entry.sequence_ptr.get_full_name(),
+                seq_q_entry.sequence_ptr.get_priority()), UVM_NONE)
+        return seq_q_entry.sequence_ptr.get_priority()
+
     #
     #  int m_is_relevant_completed
     #
@@ -1229,29 +1230,6 @@ class UVMSequencerBase(UVMComponent):
 #endfunction
 #
 #
-#// m_get_seq_item_priority
-#// -----------------------
-#
-#function int uvm_sequencer_base::m_get_seq_item_priority(uvm_sequence_request seq_q_entry)
-#  // If the priority was set on the item, then that is used
-#  if (seq_q_entry.item_priority != -1):
-#    if (seq_q_entry.item_priority <= 0):
-#      uvm_report_fatal("SEQITEMPRI",
-#                    $sformatf("Sequence item from %s has illegal priority: %0d",
-#                            seq_q_entry.sequence_ptr.get_full_name(),
-#                            seq_q_entry.item_priority), UVM_NONE)
-#    end
-#    return seq_q_entry.item_priority
-#  end
-#  // Otherwise, use the priority of the calling sequence
-#  if (seq_q_entry.sequence_ptr.get_priority() < 0):
-#    uvm_report_fatal("SEQDEFPRI",
-#                    $sformatf("Sequence %s has illegal priority: %0d",
-#                            seq_q_entry.sequence_ptr.get_full_name(),
-#                            seq_q_entry.sequence_ptr.get_priority()), UVM_NONE)
-#  end
-#  return seq_q_entry.sequence_ptr.get_priority()
-#endfunction
 #
 #
 #
-- 
2.43.0


From 80114922c9eecd8be7dcd84d474444a3688a2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:53 +0000
Subject: [PATCH 176/178] fix: the text of a register field shows its value in
 hexadecimal

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 35d5391..6c3cd1d 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1431,7 +1431,7 @@ class UVMRegField(UVMObject):
         reg_ = self.get_register()
         convert2string = ""
 
-        fmt = "{}'h%{}h".format(self.get_n_bits(), (self.get_n_bits()-1)/4 + 1)
+        fmt = "{}'h{{:0{}X}}".format(self.get_n_bits(), (self.get_n_bits()-1)//4 + 1)
 
         mirrored = ""
         if self.m_desired != self.m_mirrored:
-- 
2.43.0


From 0676802015875f7803e55ba9c04b0c3eb5246e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:55 +0000
Subject: [PATCH 177/178] fix: the text of a register tells that it is being
 read

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 8510347..c40e337 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1602,7 +1602,7 @@ class UVMReg(UVMObject):
         # if len(arr_map_info) > 0:
         # map_info = arr_map_info[0]
 
-        self.m_read_in_progress = 1
+        self.m_read_in_progress = True
         rw.status = UVM_IS_OK
 
         #   // PRE-READ CBS - FIELDS
@@ -1630,7 +1630,7 @@ class UVMReg(UVMObject):
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
-            self.m_read_in_progress = 0
+            self.m_read_in_progress = False
             return
 
         # EXECUTE READ...
-- 
2.43.0


From 196e3c9ef05447e3451a16f88db320c52186fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:00 +0000
Subject: [PATCH 178/178] fix: print_catcher shows which report catchers there
 are

---
 src/uvm/base/uvm_report_catcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index 7852399..820c399 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -376,7 +376,7 @@ class UVMReportCatcher(UVMCallback):
             else:
                 enabled = "OFF"
 
-            q.append(sv.sformatf("%20s : %s\n", catcher.get_name(),enabled))
+            q.append("{:>20} : {}\n".format(catcher.get_name(), enabled))
             catcher = cls.cb_iter.next()
 
         q.append("--------------------------------------------------------------\n")
-- 
2.43.0

