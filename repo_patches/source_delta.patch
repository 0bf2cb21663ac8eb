From b07f59b3a6c75a703cd48df5259849872ea464ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 01/83] fix: start routines fresh and return only their own
 value to the task

A value sent by the event before a Routine was sent into the Routine's
just-started generator (TypeError), and a Routine that returned None
handed its last event's value to the task as its result.
---
 src/upstage_des/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 158e30a..4ec4bd2 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -493,8 +493,7 @@ class Task(SettableEnv):
                         except StopIteration as e:
                             generators.pop()
                             gen_objs.pop()
-                            if e.value is not None:
-                                return_item = e.value
+                            return_item = e.value
                             if not generators:
                                 stop_run = True
                                 break
@@ -505,6 +504,7 @@ class Task(SettableEnv):
                         if isinstance(next_event, Routine):
                             generators.append(next_event._run())
                             gen_objs.append(next_event)
+                            return_item = None
                             continue
 
                         if isinstance(next_event, Process):
-- 
2.43.0


From 8d6dc3bbb4af42199942c25e727d2d29b9f71f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 02/83] fix: send event values into a Routine's run generator

Values from events yielded in a Routine never reached the run() method.
---
 src/upstage_des/routines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 1a6ac68..26add19 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -45,11 +45,12 @@ class Routine(SettableEnv):
     def _run(self) -> ROUTINE_GEN:
         try:
             gen = self.run()
+            result: Any = None
             while True:
-                evt = next(gen)
+                evt = gen.send(result)
                 if not isinstance(evt, BaseEvent):
                     raise SimulationError("Routines only support BaseEvent subclasses.")
-                yield evt
+                result = yield evt
         except StopIteration as e:
             return e.value
         except GeneratorExit:
-- 
2.43.0


From fa931c28d2a41d63164fdeaab037c7f9da1d9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 03/83] fix: cancel events that have already succeeded without
 raising

Interrupting a task raised when it was waiting on a multi-event with a
finished Event or nested multi-event, or when the event it was waiting
for had been succeeded at the time of the interrupt.
---
 src/upstage_des/events.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index f345f1e..fc0cfb1 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -425,8 +425,9 @@ class MultiEvent(BaseEvent):
         """Cancel the multi event and propagate it to the sub-events."""
         if self._simpy_event is None:
             raise UpstageError("Can't cancel a nonexistent event.")
-        self._simpy_event.defused = True
-        self._simpy_event.fail(Exception("defused"))
+        if not self._simpy_event.triggered:
+            self._simpy_event.defused = True
+            self._simpy_event.fail(Exception("defused"))
         for event in self.events:
             if isinstance(event, BaseEvent):
                 try:
@@ -854,7 +855,10 @@ class Event(BaseEvent):
         """Cancel the event.
 
         Cancelling doesn't mean much, since it's still going to be yielded on.
+        An event that has already succeeded has nothing left to cancel.
         """
+        if self._event.triggered and not self._event.defused:
+            return
         try:
             self._event.defused = True
             self._event.succeed()
-- 
2.43.0


From 41db588a6fce293b548698e024011b8b0d10257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 04/83] fix: give back a resource granted but not received when
 its hold is cancelled

Interrupting a task at the moment its ResourceHold request was granted
left the resource in use forever.
---
 src/upstage_des/events.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index fc0cfb1..a851e96 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -711,6 +711,15 @@ class ResourceHold(BaseRequestEvent):
             return self._request_event
         raise UpstageError(f"Bad stage for Resource Hold: {self._stage}")
 
+    def cancel(self) -> None:
+        """Cancel the request, giving back a resource granted but not yet received."""
+        request = self._request
+        if isinstance(request, Request) and request.triggered and not request.processed:
+            self.resource.release(request)
+            self._stage = "completed"
+            return
+        super().cancel()
+
 
 class FilterGet(Get):
     """A Get for a FilterStore."""
-- 
2.43.0


From 2ad6d3b6764e61307d3f3109292f85bb26573116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:48 +0000
Subject: [PATCH 05/83] fix: keep an item granted as a WindowedGet's window
 ends

A get request granted at the same time the window closed was dropped
together with its item.
---
 src/upstage_des/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/routines.py b/src/upstage_des/routines.py
index 26add19..28197e1 100644
--- a/src/upstage_des/routines.py
+++ b/src/upstage_des/routines.py
@@ -151,7 +151,8 @@ class WindowedGet(Routine):
 
             yield AnyEvent(*evts)
 
-            if not incoming.is_complete():
+            request = incoming.as_event()
+            if not request.triggered:
                 incoming.cancel()
                 break
 
-- 
2.43.0


From 7ffd5800cfcf35816b216b48952183019c999bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:43 +0000
Subject: [PATCH 06/83] fix: deactivate only the mimic states of the given task

Ending one task stopped mimic states activated by the actor's other tasks
(or raised a KeyError).
---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 9cb8282..c37729c 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -531,7 +531,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states):
+        for state in list(self._mimic_states_by_task[task]):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From 5d1a5ed7a3470f1d218f338fa949697df4620ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:43 +0000
Subject: [PATCH 07/83] fix: leave a DictionaryState unchanged when a value is
 rejected

The value was stored before its type was checked.
---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index fb6304c..7a0409e 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -27,9 +27,9 @@ class _DictionaryProxy(Generic[VTD]):
         self._wrapped = wrapped
 
     def __setitem__(self, key: str, value: VTD) -> None:
-        self._wrapped[key] = value
         if not self.descriptor._type_check(value, throw=False):
             raise TypeError(f"Bad type for dictionary: {key}: {value}")
+        self._wrapped[key] = value
         self.descriptor._record_state(self.instance, key, all=False)
 
     def setdefault(self, key: str, value: VTD) -> VTD:
-- 
2.43.0


From 3f5fe27e2948f5eee50cdd726f2064ab5ba40782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:43 +0000
Subject: [PATCH 08/83] fix: allow setting inherited fields of a DataclassState

Only the dataclass's own annotations were consulted, so setting a field
defined on a base dataclass raised a KeyError.
---
 src/upstage_des/state_proxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7a0409e..7e94ef3 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -107,7 +107,7 @@ class _DataclassProxy(Generic[TDC]):
         return self._wrapped.__dataclass_fields__
 
     def _typecheck(self, name: str, value: Any) -> None:
-        field_type = self._wrapped.__annotations__[name]
+        field_type = self._wrapped.__dataclass_fields__[name].type
         if not isinstance(value, field_type):
             raise TypeError(
                 f"Dataclass value {value} for field {name} doesn't match type: {field_type}."
-- 
2.43.0


From f69d4490cac7043800c99af4f051ef54801a6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:43 +0000
Subject: [PATCH 09/83] fix: honor record_duplicates on dictionary and
 dataclass states

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1d70d72..fa1826b 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1206,7 +1206,7 @@ class _KeyValueBase(State):
         new = (time, value)
         if name not in instance._state_histories:
             instance._state_histories[name] = [new]
-        elif self._record_duplicates or not _compare(new, instance._state_histories[name][-1]):
+        elif self._record_indiv_dupe or not _compare(new, instance._state_histories[name][-1]):
             instance._state_histories[name].append(new)
 
     def _get_keys_values(self, instance: "Actor") -> list[tuple[str, Any]]:
-- 
2.43.0


From 8ebdcc14ab5c5a568093371c00148beea5a7a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 10/83] fix: do not call recording functions with activation
 markers

Recording functions expect state values; activating or deactivating an
active state called them with the ActiveStatus marker.
---
 src/upstage_des/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index fa1826b..1cf4873 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -206,7 +206,8 @@ class State(Generic[ST]):
         ):
             instance._state_histories[self.name].append(to_append)
 
-        self._do_record_funcs(instance, *to_append)
+        if override is None:
+            self._do_record_funcs(instance, *to_append)
 
     def _do_callback(self, instance: "Actor", value: ST) -> None:
         """Run callbacks for the state change.
-- 
2.43.0


From f8e4cf92ccf869a56fd60cfd60682c9228141483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 11/83] fix: clone actors that have no_init or unset states or
 properties

Cloning (and so rehearsing) such an actor always raised an error.
---
 src/upstage_des/actor.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index c37729c..b79c525 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -986,9 +986,15 @@ Args:
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
         states: dict[str, Any] = {}
+        no_init_states: dict[str, Any] = {}
         for state in self.states:
             state_obj = self._state_defs[state]
-            if isinstance(state_obj, ResourceState):
+            if state_obj._allow_none_default and state not in self.__dict__:
+                # The state hasn't been given a value yet.
+                continue
+            if state_obj._no_init:
+                no_init_states[state] = copy(getattr(self, state))
+            elif isinstance(state_obj, ResourceState):
                 states[state] = state_obj._make_clone(self, getattr(self, state))
             elif isinstance(state_obj, _KeyValueBase):
                 states[state] = state_obj._make_clone(self)
@@ -1005,8 +1011,9 @@ Args:
             **states,
         )
         clone.env = new_env
+        clone.__dict__.update(no_init_states)
 
-        ignored_attributes = list(states.keys()) + ["env", "stage"]
+        ignored_attributes = list(self.states) + ["env", "stage"]
 
         for attribute_name, attribute in self.__class__.__dict__.items():
             if not any(
@@ -1014,6 +1021,7 @@ Args:
                     attribute_name in ignored_attributes,
                     attribute_name.startswith("_"),
                     callable(attribute),
+                    hasattr(attribute, "__get__"),
                 )
             ):
                 setattr(clone, attribute_name, attribute)
-- 
2.43.0


From 0eb1a527fc883076b745df6284b849794fc2c9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 12/83] fix: give a cloned actor its own task queues

A rehearsal that follows the queue to an end task removed entries from the
real actor's queue.
---
 src/upstage_des/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index b79c525..7c1551c 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1038,7 +1038,7 @@ Args:
         for name, data in knowledge.items():
             clone._knowledge[name] = copy(data)
 
-        clone._task_queue = copy(self._task_queue)
+        clone._task_queue = {name: list(queue) for name, queue in self._task_queue.items()}
         clone._task_networks = copy(self._task_networks)
 
         if clone._debug_logging:
-- 
2.43.0


From 8b32f26a6c9642403838c4feda0d47cd3545c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 13/83] fix: leave the input of a CommunicationStore unchanged

The modes were removed from the user's dictionary, so using it for a second
actor failed.
---
 src/upstage_des/states.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 1cf4873..5ab6edc 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1157,6 +1157,7 @@ class CommunicationStore(ResourceState[Store]):
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
         if isinstance(value, dict) and "modes" in value:
+            value = value.copy()
             modes = value.pop("modes")
         super().__set__(instance, value)
         if modes is None:
-- 
2.43.0


From 37c3de485ee4e287bcc3a8246e955d012eaea497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:54 +0000
Subject: [PATCH 14/83] fix: clone actors whose ResourceState was given an
 existing resource

Only resources created from a dictionary of inputs could be cloned; others
raised a KeyError.
---
 src/upstage_des/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 5ab6edc..262d6d1 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1081,7 +1081,10 @@ class ResourceState(State, Generic[T]):
             T: The copied store or container
         """
         base_class = type(copy)
-        memory: dict[str, Any] = instance.__dict__[f"_memory_for_{self.name}"]
+        # A resource that was given directly has no remembered inputs.
+        memory: dict[str, Any] = instance.__dict__.get(
+            f"_memory_for_{self.name}", {"capacity": copy.capacity}
+        )
         new = base_class(instance.env, **memory)  # type: ignore [arg-type]
         if isinstance(copy, Store) and isinstance(new, Store):
             new.items = list(copy.items)
-- 
2.43.0


From b867f81f6eeeecc153d173c45b85d5db9a8f6fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 15/83] fix: restore the network's current task when a
 rehearsal fails

An error raised while rehearsing left the real task network pointing at the
rehearsed task.
---
 src/upstage_des/task_network.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/task_network.py b/src/upstage_des/task_network.py
index 3c0c8c6..fc3bdd0 100644
--- a/src/upstage_des/task_network.py
+++ b/src/upstage_des/task_network.py
@@ -159,6 +159,21 @@ class TaskNetwork:
         _old_name = self._current_task_name
         _old_inst = self._current_task_inst
         _old_proc = self._current_task_proc
+        try:
+            return self._rehearse_tasks(actor, task_name_list, knowledge, end_task)
+        finally:
+            # reset the internal parameters
+            self._current_task_name = _old_name
+            self._current_task_inst = _old_inst
+            self._current_task_proc = _old_proc
+
+    def _rehearse_tasks(
+        self,
+        actor: REH_ACTOR,
+        task_name_list: list[str],
+        knowledge: dict[str, Any] | None,
+        end_task: str | None,
+    ) -> REH_ACTOR:
         knowledge = {} if knowledge is None else knowledge
         num_tasks = len(task_name_list)
         # pre-clone the actor to get a hold of the new environment
@@ -189,10 +204,6 @@ class TaskNetwork:
                         f"Task {follow_on} not allowed after '{task_name}' in network"
                     )
             task_idx += 1
-        # reset the internal parameters
-        self._current_task_name = _old_name
-        self._current_task_inst = _old_inst
-        self._current_task_proc = _old_proc
         return new_actor
 
     def __repr__(self) -> str:
-- 
2.43.0


From 246f7788210ed24a3ef4d5c39afca6310570abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 16/83] fix: do not interrupt a finished task from a nucleus

Changing a watched state at the time the network's task ended raised a
RuntimeError. The network is about to begin its next task.
---
 src/upstage_des/nucleus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index d04f4fa..2e43656 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -104,7 +104,7 @@ class TaskNetworkNucleus:
             if net is None:
                 raise UpstageError(f"No network {net_name} in {self._actor}")
             proc = net._current_task_proc
-            if proc is not None:
+            if proc is not None and proc.is_alive:
                 proc.interrupt(
                     cause=NucleusInterrupt(state_name, state_value),
                 )
-- 
2.43.0


From e034f85bc303ed8748f5e86f8809cdb76d8959a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 17/83] fix: count a linear change from the time its state is
 assigned

Assigning an active linear state without reading it first applied the change
since the last read to the assigned value.
---
 src/upstage_des/state_sharing.py | 12 ++++++++++++
 src/upstage_des/states.py        | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/upstage_des/state_sharing.py b/src/upstage_des/state_sharing.py
index 5867c2f..4b8dbe2 100644
--- a/src/upstage_des/state_sharing.py
+++ b/src/upstage_des/state_sharing.py
@@ -50,6 +50,18 @@ class SharedLinearChangingState(ActiveState[float]):
         )
         self.IGNORE_LOCK: bool = True
 
+    def __set__(self, instance: Actor, value: float) -> None:
+        """Set the value, counting any active change from the current time.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        active_data = instance._active_states.get(self.name, {})
+        if "_last_time" in active_data:
+            active_data["_last_time"] = instance.env.now
+
     def _active(self, instance: Actor) -> float | None:
         """Return a value to set based on time or some other criteria.
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 262d6d1..9a77065 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -478,6 +478,18 @@ class LinearChangingState(ActiveState[float]):
     >>>     )
     """
 
+    def __set__(self, instance: "Actor", value: float) -> None:
+        """Set the value, counting any active change from the current time.
+
+        Args:
+            instance (Actor): The actor holding the state
+            value (float): The state's value
+        """
+        super().__set__(instance, value)
+        active_data = instance._active_states.get(self.name, {})
+        if "started_at" in active_data:
+            active_data["started_at"] = instance.env.now
+
     def _active(self, instance: "Actor") -> float | None:
         """Return a value to set based on time or some other criteria."""
         data = self.get_activity_data(instance)
-- 
2.43.0


From 8157e1e883516056370dc09ae6142d1614e0ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 18/83] fix: treat rounding at a ContinuousContainer's limits
 as reaching them

Filling or emptying with rates that are not exact in floating point raised
ContainerError, overfilled the container, or left a residual rate whose
level check had ended.
---
 src/upstage_des/resources/container.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index dc76d40..1569520 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -295,6 +295,10 @@ class ContinuousContainer:
         if now > self._last:
             self._level += self._rate * (now - self._last)
             self._last = now
+            # Rounding can leave the level just to one side of a limit it has reached.
+            for limit in (0.0, self._capacity):
+                if abs(self._level - limit) <= 1e-9 * min(self._capacity, 1e9):
+                    self._level = limit
         return self._level
 
     def _check_empty(self) -> tuple[list[ContinuousGet], float]:
@@ -363,6 +367,8 @@ class ContinuousContainer:
 
         self._set_level()
         self._rate += rate_change
+        if abs(self._rate) <= 1e-12 * max(1.0, abs(rate_change)):
+            self._rate = 0.0
 
         if self._rate == 0.0:
             self._checking = None
-- 
2.43.0


From 115c19b557d52d82143097825af0a1681c946534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:15 +0000
Subject: [PATCH 19/83] fix: return the selected item from a SortedFilterStore

Falsy items were never retrievable, and an equal item could be removed in place of the selected one.
---
 src/upstage_des/resources/sorted.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/resources/sorted.py b/src/upstage_des/resources/sorted.py
index 576ce0b..fa785bb 100644
--- a/src/upstage_des/resources/sorted.py
+++ b/src/upstage_des/resources/sorted.py
@@ -81,22 +81,21 @@ class SortedFilterStore(Store):
         get = BoundClass(_SortedFilterStoreGet)
 
     def _do_get(self, event: _SortedFilterStoreGet) -> bool:  # type: ignore[override]
-        min_item: Any = None
+        min_idx: int | None = None
         # min_val is a tuple, in case the sorter returns an iterable
         min_val: tuple[Any, ...] | None = None
-        for item in self.items:
+        for idx, item in enumerate(self.items):
             if event.filter(item):
                 if event.sorter is not None:
                     val = event.sorter(item)
                     if min_val is None or (val > min_val if event.reverse else val < min_val):
-                        min_item = item
+                        min_idx = idx
                         min_val = val
                 else:
-                    min_item = item
+                    min_idx = idx
                     break
-        if min_item:
-            self.items.remove(min_item)
-            event.succeed(min_item)
+        if min_idx is not None:
+            event.succeed(self.items.pop(min_idx))
         return True
 
 
-- 
2.43.0


From 5f09cdf7ab3fc1d86290e53361c6f3d99f04b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 20/83] fix: let only its own expiry end a reservation

The expiry of an earlier reservation cancelled a later one by the same requester.
---
 src/upstage_des/resources/reserve.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 80416ea..1b55566 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -72,18 +72,19 @@ class ReserveContainer:
         return list(self._queued.keys())
 
     @process
-    def _expire_request(self, requester: Any, time: float) -> Generator[Event, None, None]:
-        """Expire the request after an expiration period or at a specific time.
-
-        :param request: the Request namedtuple object
-        :param expiration: the expiration Event object
-
-        :type request:
-        :type expiration:
+    def _expire_request(
+        self, requester: Any, reservation: tuple[float, float], time: float
+    ) -> Generator[Event, None, None]:
+        """Expire the reservation after a period, if it still stands.
 
+        Args:
+            requester (Any): The requester that holds the reservation.
+            reservation (tuple[float, float]): The quantity and time reserved.
+            time (float): Time until the reservation expires.
         """
         yield self._env.timeout(time)
-        self.cancel_request(requester)
+        if self._queued.get(requester) is reservation:
+            self.cancel_request(requester)
 
     def reserve(self, requester: Any, quantity: float, expiration: float | None = None) -> bool:
         """Reserve a quantity of storage."""
@@ -91,9 +92,10 @@ class ReserveContainer:
             return False
         elif requester not in self._queued:
             self._level -= quantity
-            self._queued[requester] = (quantity, self._env.now)
+            reservation = (quantity, self._env.now)
+            self._queued[requester] = reservation
             if expiration is not None:
-                self._expire_request(requester, expiration)
+                self._expire_request(requester, reservation, expiration)
             return True
         else:
             return False
-- 
2.43.0


From d5e3c466863a6fda233ae7d6f995e08cbf675687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 21/83] fix: count reserved amounts against a
 ReserveContainer's capacity

A put was accepted while a reservation was held that overfilled the container once the hold ended.
---
 src/upstage_des/resources/reserve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index 1b55566..e197b57 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -123,9 +123,9 @@ class ReserveContainer:
 
     def put(self, amount: float, capacity_increase: bool = False) -> None:
         """Put some quantity back in."""
-        new = self._level + amount
+        new = self._real_level + amount
         if new > self.capacity and not capacity_increase:
             raise ValueError("Adding too much.")
         else:
-            self._level = new
-            self._real_level += amount
+            self._level += amount
+            self._real_level = new
-- 
2.43.0


From f020ae32968df513ccdc2bcf2943b3730b1721d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 22/83] fix: raise the capacity on a ReserveContainer put that
 asks for it

The documented capacity increase never happened, so taken amounts could not be put back.
---
 src/upstage_des/resources/reserve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/resources/reserve.py b/src/upstage_des/resources/reserve.py
index e197b57..2862a12 100644
--- a/src/upstage_des/resources/reserve.py
+++ b/src/upstage_des/resources/reserve.py
@@ -129,3 +129,4 @@ class ReserveContainer:
         else:
             self._level += amount
             self._real_level = new
+            self.capacity = max(self.capacity, new)
-- 
2.43.0


From 674061f0375cc0fb32f35e15db4a91ac44f7e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 23/83] fix: drop an unreachable destination from the route
 options

A blocked last hop was retried without end, at one instant if there is no retry time.
---
 src/upstage_des/communications/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index 4ea0d91..ec77943 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -265,9 +265,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         u, v = source.name, dest.name
         if u not in self._network:
             return None
-        if v in self._network[u]:
-            return dest
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
+        if v in self._network[u] and v not in ignore_names:
+            return dest
         net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
         path = _shortest_path(net, u, v)
         if not path:
-- 
2.43.0


From 5bcd4323eb529b14ca7e694fd2f3424de78d1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 24/83] fix: choose between equally short routes in connection
 order

The choice followed the hash order of names, so it changed from one process to the next.
---
 src/upstage_des/communications/routing.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/communications/routing.py b/src/upstage_des/communications/routing.py
index ec77943..f3abd5a 100644
--- a/src/upstage_des/communications/routing.py
+++ b/src/upstage_des/communications/routing.py
@@ -14,14 +14,14 @@ from upstage_des.task import process
 from upstage_des.type_help import SIMPY_GEN
 
 
-def _shortest_path(network: dict[str, set[str]], start: str, goal: str) -> list[str]:
+def _shortest_path(network: dict[str, list[str]], start: str, goal: str) -> list[str]:
     """Dijkstra for network path."""
     queue = deque([(start, [start])])
     visited = {start}
 
     while queue:
         node, path = queue.popleft()
-        for neighbor in network.get(node, set()):
+        for neighbor in network.get(node, []):
             if neighbor == goal:
                 return path + [neighbor]
             if neighbor not in visited:
@@ -224,7 +224,8 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
             debug_logging=debug_logging,
         )
         self._nodes: dict[str, Actor] = {}
-        self._network: dict[str, set[str]] = defaultdict(set)
+        # Insertion-ordered, so that equally short routes are not chosen by hash order.
+        self._network: dict[str, dict[str, None]] = defaultdict(dict)
 
     def connect_nodes(self, u: Actor, v: Actor, two_way: bool = False) -> None:
         """Connect node u to v (one-way).
@@ -243,9 +244,9 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
 
         self._nodes[u.name] = u
         self._nodes[v.name] = v
-        self._network[u.name].add(v.name)
+        self._network[u.name][v.name] = None
         if two_way:
-            self._network[v.name].add(u.name)
+            self._network[v.name][u.name] = None
 
     def select_hop(
         self, source: Actor, dest: Actor, ignore_nodes: list[Actor] | None = None
@@ -268,7 +269,11 @@ class RoutingTableCommsManager(RoutingCommsManagerBase):
         ignore_names = [x.name for x in ignore_nodes] if ignore_nodes is not None else []
         if v in self._network[u] and v not in ignore_names:
             return dest
-        net = {k: v - set(ignore_names) for k, v in self._network.items() if k not in ignore_names}
+        net = {
+            node: [x for x in links if x not in ignore_names]
+            for node, links in self._network.items()
+            if node not in ignore_names
+        }
         path = _shortest_path(net, u, v)
         if not path:
             return None
-- 
2.43.0


From d7db4497df62fa07763904fe7ed429739dfd91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 25/83] fix: notify the networks of a nucleus in the order they
 were added

The order followed the hash order of names, so it changed from one process to the next.
---
 src/upstage_des/nucleus.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/nucleus.py b/src/upstage_des/nucleus.py
index 2e43656..7c40f04 100644
--- a/src/upstage_des/nucleus.py
+++ b/src/upstage_des/nucleus.py
@@ -50,8 +50,9 @@ class TaskNetworkNucleus:
             actor (Actor): The actor instance.
         """
         self._actor = actor
-        self._state_map: dict[str, set[str]] = defaultdict(set)
-        self._network_map: dict[str, set[str]] = defaultdict(set)
+        # Ordered, so that networks are not notified in hash order.
+        self._state_map: dict[str, dict[str, None]] = defaultdict(dict)
+        self._network_map: dict[str, dict[str, None]] = defaultdict(dict)
         self._attach()
 
     def add_network(
@@ -70,8 +71,8 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in watch_states:
-            self._state_map[state].add(network_name)
-            self._network_map[network_name].add(state)
+            self._state_map[state][network_name] = None
+            self._network_map[network_name][state] = None
             # if not hasattr(actor, state):
             #     raise SimulationError(f"State {state} does not exist on actor")
 
@@ -89,7 +90,7 @@ class TaskNetworkNucleus:
         if network_name not in self._actor._task_networks:
             raise UpstageError(f"No network {network_name} in {self._actor}")
         for state in self._network_map[network_name]:
-            self._state_map[state].remove(network_name)
+            del self._state_map[state][network_name]
         del self._network_map[network_name]
 
     def send_change(self, state_name: str, state_value: Any) -> None:
-- 
2.43.0


From 584d5fe6b08b0279165ce6de6c553c9483c142bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 26/83] fix: set defaults and deactivate states in a fixed
 order

The order followed the hash order of state names, so it changed from one process to the next.
---
 src/upstage_des/actor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 7c1551c..f2904b8 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -76,7 +76,7 @@ class Actor(SettableEnv, NamedUpstageEntity):
             else:
                 raise UpstageError(f"Input to {self} was not expected: {state}={value}")
         exist = set(self._state_defs.keys())
-        unseen = exist - seen
+        unseen = [name for name in self._state_defs if name not in seen]
         for state_name in unseen:
             _state = self._state_defs[state_name]
             if _state.has_default():
@@ -130,9 +130,9 @@ class Actor(SettableEnv, NamedUpstageEntity):
         self._state_defs: dict[str, State] = getattr(self.__class__, "_state_defs", {})
 
         self._mimic_states: dict[str, tuple[Actor, str]] = {}  # has to be before other calls
-        self._mimic_states_by_task: dict[Task, set[str]] = defaultdict(set)
+        self._mimic_states_by_task: dict[Task, dict[str, None]] = defaultdict(dict)
 
-        self._states_by_task: dict[Task, set[str]] = defaultdict(set)
+        self._states_by_task: dict[Task, dict[str, None]] = defaultdict(dict)
         self._tasks_by_state: dict[str, set[Task]] = defaultdict(set)
 
         self._task_networks: dict[str, TaskNetwork] = {}
@@ -287,7 +287,7 @@ Args:
                     f"State '{state}' already locked by '{task}'. "
                     "Did you forget to unlock/deactivate it?"
                 )
-        self._states_by_task[task].add(state)
+        self._states_by_task[task][state] = None
         self._tasks_by_state[state].add(task)
 
     def _set_active_state_data(
@@ -384,10 +384,10 @@ Args:
                 raise SimulationError(
                     f"State `{state}` isn't locked by '{task}', but it's trying to be unlocked."
                 )
-            self._states_by_task[task].remove(state)
+            del self._states_by_task[task][state]
             self._tasks_by_state[state].remove(task)
         elif task in self._tasks_by_state[state]:
-            self._states_by_task[task].remove(state)
+            del self._states_by_task[task][state]
             self._tasks_by_state[state].remove(task)
         else:
             raise UpstageError(f"State '{state}' was not activated by '{task}', cannot deactivate")
@@ -498,7 +498,7 @@ Args:
             )
 
         self._mimic_states[self_state] = (mimic_actor, mimic_state)
-        self._mimic_states_by_task[task].add(self_state)
+        self._mimic_states_by_task[task][self_state] = None
 
         self_state_name = self._mimic_state_name(self_state)
         if state.is_recording:
@@ -523,7 +523,7 @@ Args:
         if state.is_recording:
             mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
         del self._mimic_states[self_state]
-        self._mimic_states_by_task[task].remove(self_state)
+        del self._mimic_states_by_task[task][self_state]
 
     def deactivate_all_mimic_states(self, *, task: Task) -> None:
         """Deactivate all mimicking states in the actor for a given task.
-- 
2.43.0


From 9c988a9b7187fcdfe6f80320695227f57e70d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 27/83] fix: notify sensors of a lost mover in the order they
 saw it

The order followed object addresses, so it changed from one run to the next.
---
 src/upstage_des/motion/motion.py         |  8 ++++----
 src/upstage_des/motion/stepped_motion.py | 13 +++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 3d670df..d463213 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -102,7 +102,7 @@ class SensorMotionManager(UpstageBase):
         self._sensors: dict[SensorType, tuple[str, str]] = {}
         self._movers: dict[Actor, tuple[float, LOC_LIST, float]] = {}
         self._events: dict[Actor, list[tuple[SensorType, Process]]] = {}
-        self._in_view: dict[Actor, set[SensorType]] = {}
+        self._in_view: dict[Actor, dict[SensorType, None]] = {}
         self._debug: bool = debug
         self._debug_data: dict[Actor, list[Any]] = {}
         self._debug_log: list[Any] = []
@@ -265,9 +265,9 @@ class SensorMotionManager(UpstageBase):
             bool: If it was already in view.
         """
         if mover not in self._in_view:
-            self._in_view[mover] = set()
+            self._in_view[mover] = {}
         was_in = sensor in self._in_view[mover]
-        self._in_view[mover].add(sensor)
+        self._in_view[mover][sensor] = None
         return was_in
 
     def _remove_from_view(self, mover: Actor, sensor: SensorType) -> None:
@@ -281,7 +281,7 @@ class SensorMotionManager(UpstageBase):
             raise MotionAndDetectionError(f"{mover} isn't in view of anything to remove.")
         if sensor not in self._in_view[mover]:
             raise MotionAndDetectionError(f"{mover} isn't in view of {sensor} to allow clearing.")
-        self._in_view[mover].remove(sensor)
+        del self._in_view[mover][sensor]
 
     def _end_notify(self, mover: Actor, sensor: SensorType, event: str) -> None:
         """End notification and give a reason.
diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 150e394..97bab13 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -73,7 +73,7 @@ class SteppedMotionManager(UpstageBase):
         super().__init__()
         self._sensors: dict[SensorType, tuple[Callable[[], float], Callable[[], LOC_TYPES]]] = {}
         self._detectables: dict[Actor, Callable[[], LOC_TYPES]] = {}
-        self._in_view: set[tuple[SensorType, Actor]] = set()
+        self._in_view: dict[tuple[SensorType, Actor], None] = {}
         self._timestep = timestep
         self._max_empty_events = max_empty_events
         self._debug = debug
@@ -99,11 +99,11 @@ class SteppedMotionManager(UpstageBase):
         """
         if visible:
             if (sensor, object) not in self._in_view:
-                self._in_view.add((sensor, object))
+                self._in_view[(sensor, object)] = None
                 sensor.entity_entered_range(object)
         else:
             if (sensor, object) in self._in_view:
-                self._in_view.remove((sensor, object))
+                del self._in_view[(sensor, object)]
                 sensor.entity_exited_range(object)
 
     def _test_detect(self, detectable: Actor) -> bool:
@@ -282,12 +282,13 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = set()
+        to_rem = []
         for sensor, detect in self._in_view:
             if detect is detectable:
                 sensor.entity_exited_range(detectable)
-                to_rem.add((sensor, detect))
-        self._in_view -= to_rem
+                to_rem.append((sensor, detect))
+        for pair in to_rem:
+            self._in_view.pop(pair, None)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From 39723dabee1cbc415a25e40956303881a67a229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 28/83] fix: compute the length of a spherical path from both
 end points

It was solved from the x coordinates alone, which failed or missed the end point on paths where x barely changes.
---
 src/upstage_des/geography/spherical.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index efcd3e7..af3cb2f 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,9 +4,9 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan, atan2, cos, degrees, radians, sin, sqrt
+from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
 
-from upstage_des.math_utils import _vector_dot
+from upstage_des.math_utils import _vector_dot, _vector_norm, _vector_subtract
 from upstage_des.units import unit_convert
 
 from .conversions import SphericalConversions, spherical_radius
@@ -202,28 +202,15 @@ class Spherical(SphericalConversions):
         # We keep the earth radius to be 1 since we're interpolating along radians only
         v1 = cls._ll2cart(start[0], start[1])
         v2 = cls._ll2cart(end[0], end[1])
-        # solve for the parameter value that equals the end point
+        # v1 and W are orthonormal, and the end point is at t radians from v1
         d = _vector_dot(v1, v2)
         common = sqrt(-1 / ((d - 1) * (d + 1)))
         alpha, beta = -d * common, common
-        a, _, _ = v1
-        d, _, _ = v2
-        lead = a * alpha + beta * d
-        sqrt_inner = a**2 * alpha**2 + a**2 + 2 * a * alpha * beta * d + beta**2 * d**2 - d**2
-        if sqrt_inner < 0:
-            raise ValueError("geo_linspace fails due to negative sqrt")
-        t = 2 * atan((lead + sqrt(sqrt_inner)) / (a + d))
+        t = 2 * asin(min(1.0, _vector_norm(_vector_subtract(v2, v1)) / 2))
+
         W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
         assert len(W) == 3
         W = (W[0], W[1], W[2])
-        # test that the t is right
-        ct, st = cos(t), sin(t)
-        end_pt = tuple([ct * x + st * w for x, w in zip(v1, W)])
-        assert len(end_pt) == 3
-        end_pt = (end_pt[0], end_pt[1], end_pt[2])
-        is_close = all(abs(a - b) <= 1e-8 for a, b in zip(end_pt, v2))
-        if not is_close:
-            t = 2 * atan((lead - sqrt(sqrt_inner)) / (a + d))
 
         ts = [(t / num_segments) * i for i in range(0, num_segments + 1)]
         v_cos = [tuple(cos(t) * v for v in v1) for t in ts]
-- 
2.43.0


From 171974826ebe22218441bc3862f91b09686bd178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 29/83] fix: make ecef_linspace work

It always raised, unpacking a list of points as two lists.
---
 src/upstage_des/geography/spherical.py | 4 ++--
 src/upstage_des/geography/wgs84.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index af3cb2f..759c59f 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -437,10 +437,10 @@ class Spherical(SphericalConversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 662b52c..33520bf 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -354,10 +354,10 @@ class WGS84(WGS84Conversions):
         """
         start = _convert_geo(start)
         finish = _convert_geo(finish)
-        lats, lons = cls.geo_linspace(start, finish, num_segments=segments)
+        latlons = cls.geo_linspace(start, finish, num_segments=segments)
         delta_alt = finish_alt - start_alt
         alts = [start_alt + delta_alt * i / segments for i in range(segments + 1)]
-        lla = [(lat, lon, alt) for lat, lon, alt in zip(lats, lons, alts)]
+        lla = [(lat, lon, alt) for (lat, lon), alt in zip(latlons, alts)]
         return cls.lla2ecef(lla)
 
     @classmethod
-- 
2.43.0


From 23469b46663f21911d79687dcd87b01c6fff3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 30/83] fix: use sin(sigma) in the longitude correction of
 point_from_bearing_dist

---
 src/upstage_des/geography/wgs84.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 33520bf..90f273c 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -237,7 +237,7 @@ class WGS84(WGS84Conversions):
         )
         C = f / 16 * cos_sq_alpha * (4 + f * (4 - 3 * cos_sq_alpha))
         L = lam - (1 - C) * f * sin_alpha * (
-            sigma + C * sin_alpha * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
+            sigma + C * sin_sigma * (cos2_sigma_m + C * cos_sigma * (-1 + 2 * cos2_sigma_m**2))
         )
         lambda_2 = lambda_1 + L
 
-- 
2.43.0


From 952a7bd59e40651868db0dc4a985707b504780a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 31/83] fix: find cross track points that are behind the origin

The closest point was mirrored to the other side of the origin.
---
 src/upstage_des/geography/spherical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 759c59f..cbef601 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -4,7 +4,7 @@
 # See the LICENSE file in the project root for complete license terms and disclaimers.
 """Geographical math using spherical coordinates for Earth."""
 
-from math import acos, asin, atan2, cos, degrees, radians, sin, sqrt
+from math import asin, atan2, cos, degrees, radians, sin, sqrt
 
 from upstage_des.math_utils import _vector_dot, _vector_norm, _vector_subtract
 from upstage_des.units import unit_convert
@@ -403,9 +403,10 @@ class Spherical(SphericalConversions):
         delta_1_3 = cls.distance(origin, point, units="m") / spherical_radius
         theta_1_3 = radians(cls.bearing(origin, point))
         theta_1_2 = radians(cls.bearing(origin, destination))
-        d = asin(sin(delta_1_3) * sin(theta_1_3 - theta_1_2))
+        # signed, since the closest point can be behind the origin
+        along_track = atan2(sin(delta_1_3) * cos(theta_1_3 - theta_1_2), cos(delta_1_3))
 
-        dist_from_origin = acos(cos(delta_1_3) / cos(d)) * spherical_radius
+        dist_from_origin = along_track * spherical_radius
         cross_track_point = cls.point_from_bearing_dist(
             origin,
             degrees(theta_1_2),
-- 
2.43.0


From 667ca863ee4bc43a3a22d11efcd8aabf19da6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 32/83] fix: allow due north and south courses in analytical
 intersections

Rounding took the argument of acos out of its domain.
---
 src/upstage_des/motion/great_circle_calcs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/motion/great_circle_calcs.py b/src/upstage_des/motion/great_circle_calcs.py
index ac940e2..dcb388a 100644
--- a/src/upstage_des/motion/great_circle_calcs.py
+++ b/src/upstage_des/motion/great_circle_calcs.py
@@ -48,12 +48,13 @@ def get_course_rad(point1: GeodeticLocation, point2: GeodeticLocation) -> float:
 
     d = get_dist_rad(point1, point2)
 
+    cos_course = (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
+    # rounding can go past +/-1 on due north or south courses
+    cos_course = max(-1.0, min(1.0, cos_course))
     if sin(point2.lon - point1.lon) < 0:
-        tcl = acos((sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat)))
+        tcl = acos(cos_course)
     else:
-        tcl = 2.0 * pi - acos(
-            (sin(point2.lat) - sin(point1.lat) * cos(d)) / (sin(d) * cos(point1.lat))
-        )
+        tcl = 2.0 * pi - acos(cos_course)
 
     return tcl
 
-- 
2.43.0


From 12d8af2e6f803aa875ab304c98d4676e558e20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 33/83] fix: count the time of path legs that miss the sensor

Later legs of a path were scheduled early by the length of each leg that does not cross the sensor's range.
---
 src/upstage_des/motion/cartesian_model.py | 2 +-
 src/upstage_des/motion/geodetic_model.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a58c5d7..8dc19e5 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -126,7 +126,7 @@ def cartesian_linear_intersection(
         speed,
     )
     if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], -1.0
+        return [], [], ["BAD", "BAD"], path_time
 
     # filter out intersections beyond the path length
     idxs = sorted(range(len(times)), key=lambda i: times[i])
diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index a01ab3d..aa717f3 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -75,7 +75,7 @@ def subdivide_intersection(
     )
 
     if not intersect_locs:
-        return [], [], ["Bad", "Bad"], 0.0
+        return [], [], ["Bad", "Bad"], path_time
 
     # convert the data to a more useful format
     intersections: list[GeodeticLocation] = []
@@ -152,7 +152,7 @@ def analytical_intersection(
     # no intersection
     if point_results is None:
         # return matches subdivide_intersection results
-        return [], [], ["Bad", "Bad"], -1.0
+        return [], [], ["Bad", "Bad"], path_time
 
     points, distances = point_results
     # get points, times, and types
-- 
2.43.0


From df5c430ae770f4b5e8623b6818c0aa5f0a80d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 34/83] fix: interpolate altitude along an analytical
 intersection's path

The distance was divided by the path length twice.
---
 src/upstage_des/motion/geodetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index aa717f3..abef70a 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -170,7 +170,7 @@ def analytical_intersection(
         types.append("ENTER")
 
         # estimate intersection altitude assuming linear change
-        alt_1 = start.alt + (distances[0] / path_dist) * alt_change_per_dist
+        alt_1 = start.alt + distances[0] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d1_m = distances[0] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_1), altitude_units, dist_units)
@@ -195,7 +195,7 @@ def analytical_intersection(
         types.append("EXIT")
 
         # estimate intersection altitude assuming linear change
-        alt_2 = start.alt + (distances[1] / path_dist) * alt_change_per_dist
+        alt_2 = start.alt + distances[1] * alt_change_per_dist
         # adjust distance to account for average altitude from start to first intersection
         d2_m = distances[1] * (
             earth_rad + unit_convert(0.5 * (start.alt + alt_2), altitude_units, dist_units)
-- 
2.43.0


From 405887c322f73a266f48e406c4d0d693510cd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 35/83] fix: find no intersection for a path above a sensor's
 radius

The analytical model raised a math domain error.
---
 src/upstage_des/motion/geodetic_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/geodetic_model.py b/src/upstage_des/motion/geodetic_model.py
index abef70a..4b3062a 100644
--- a/src/upstage_des/motion/geodetic_model.py
+++ b/src/upstage_des/motion/geodetic_model.py
@@ -137,6 +137,11 @@ def analytical_intersection(
     # modify the sensor's radius to account for the altitude of the mover
     average_path_height = (start.alt + finish.alt) / 2.0
     average_path_height_dist_units = unit_convert(average_path_height, altitude_units, dist_units)
+    path_dist = get_dist_rad(start_rad, finish_rad)
+    path_time = (path_dist * earth_rad) / speed
+    # the path is too high to be seen at all
+    if sensor_radius <= abs(average_path_height_dist_units):
+        return [], [], ["Bad", "Bad"], path_time
     adjusted_sensor_radius = sqrt(sensor_radius**2 - average_path_height_dist_units**2)
     sensor_radius_rad = adjusted_sensor_radius / earth_rad
 
@@ -146,8 +151,6 @@ def analytical_intersection(
     )
     dist_start = get_dist_rad(sensor_location_rad, start_rad)
     dist_finish = get_dist_rad(sensor_location_rad, finish_rad)
-    path_dist = get_dist_rad(start_rad, finish_rad)
-    path_time = (path_dist * earth_rad) / speed
 
     # no intersection
     if point_results is None:
-- 
2.43.0


From 732fc21553b89c61d6be4337374a49d2a6ce3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 36/83] fix: use distance units for heights in cartesian
 intersections

Locations in altitude units were intersected with their unconverted heights.
---
 src/upstage_des/motion/cartesian_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index 8dc19e5..a7359c5 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -106,8 +106,8 @@ def cartesian_linear_intersection(
     path_time = path_dist / speed
     dist_start = sensor_location - start
     dist_finish = sensor_location - finish
-    start_tup = (start.x, start.y, start.z)
-    finish_tup = (finish.x, finish.y, finish.z)
+    start_tup = start._as_array()
+    finish_tup = finish._as_array()
 
     # for start and finish inside, we can skip the intersection math
     start_inside = dist_start <= sensor_radius
@@ -117,7 +117,7 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
-    sensor_location_tup = (sensor_location.x, sensor_location.y, sensor_location.z)
+    sensor_location_tup = sensor_location._as_array()
     intersections, times = ray_intersection(
         start_tup,
         finish_tup,
-- 
2.43.0


From 5bb9afdfc39d9fad0aa7eacad02e37f1694fc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 37/83] fix: convert between all of the documented time units

Conversions to days and weeks were missing.
---
 src/upstage_des/units/convert.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/upstage_des/units/convert.py b/src/upstage_des/units/convert.py
index 9c51b0c..817c1d4 100644
--- a/src/upstage_des/units/convert.py
+++ b/src/upstage_des/units/convert.py
@@ -24,11 +24,23 @@ CONVERSIONS: dict[str, dict[str, float]] = {
         "nmi": 1.0,
         "m": 1 / 0.539957 * 1000,
     },
-    "s": {"hr": 1.0 / (60.0 * 60.0), "min": 1.0 / 60.0, "s": 1.0},
-    "min": {"hr": 1.0 / 60.0, "min": 1.0, "s": 60.0},
-    "hr": {"hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
-    "day": {"hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
-    "week": {"day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
+    "s": {
+        "week": 1.0 / (7.0 * 24 * 3600),
+        "day": 1.0 / (24 * 3600),
+        "hr": 1.0 / (60.0 * 60.0),
+        "min": 1.0 / 60.0,
+        "s": 1.0,
+    },
+    "min": {
+        "week": 1.0 / (7.0 * 24 * 60.0),
+        "day": 1.0 / (24 * 60.0),
+        "hr": 1.0 / 60.0,
+        "min": 1.0,
+        "s": 60.0,
+    },
+    "hr": {"week": 1.0 / (7.0 * 24), "day": 1.0 / 24, "hr": 1.0, "min": 60.0, "s": (60.0 * 60.0)},
+    "day": {"day": 1.0, "hr": 24.0, "week": 1 / 7.0, "min": 24 * 60.0, "s": 24 * 3600},
+    "week": {"week": 1.0, "day": 7.0, "hr": 7.0 * 24, "min": 7.0 * 24 * 60.0, "s": 7.0 * 24 * 3600},
 }
 
 DISTANCE_UNITS = ["m", "km", "mi", "nmi", "ft"]
-- 
2.43.0


From e4efa950647e4b8839d0261b506dd279b12b8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 38/83] fix: name location columns after the actors that have
 locations

The last actor named them even without locations, and no actors at all was an error.
---
 src/upstage_des/data_utils/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index b4eef68..df82408 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -255,7 +255,10 @@ def create_location_table() -> tuple[list[LOCATION_DATA_ROW], list[str]]:
     """
     _base = UpstageBase()
     data: list[LOCATION_DATA_ROW] = []
+    cols = ["X", "Y", "Z"]
     for actor in _base.get_actors():
-        _data, cols = _actor_location_data(actor)
+        _data, _cols = _actor_location_data(actor)
+        if _data:
+            cols = _cols
         data.extend(_data)
     return data, COLUMN_NAMES + cols + [ACTIVATION_STATUS_COL]
-- 
2.43.0


From a2b233b7aea5185eb9b716d40a27f2ab08652bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 39/83] fix: tabulate every recorded key of dictionary and
 dataclass states

Keys added through the raw object were an error, and replaced keys were lost.
---
 src/upstage_des/data_utils/data_utils.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index df82408..9241366 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -1,6 +1,6 @@
 """Utilities for gathering all recorded simulation data."""
 
-from dataclasses import asdict, fields, is_dataclass
+from dataclasses import asdict, is_dataclass
 from typing import Any, cast
 
 from upstage_des.actor import Actor
@@ -68,14 +68,6 @@ def _state_history_to_table(
     return data
 
 
-def _key_list(obj: Any) -> list[str]:
-    if isinstance(obj, dict):
-        return [str(x) for x in obj.keys()]
-    if is_dataclass(obj):
-        return [f.name for f in fields(obj)]
-    raise ValueError(f"Unexpected data type for state history: {obj}")
-
-
 def _actor_state_data(
     actor: Actor,
     skip_locations: bool = True,
@@ -103,17 +95,16 @@ def _actor_state_data(
             continue
         _value = actor.__dict__[state_name]
         is_active = isinstance(state, ActiveState)
-        is_prefilled = any(key.startswith(f"{state_name}.") for key in actor._state_histories)
+        # dictionary and dataclass states record each key that they have ever held
+        key_names = [key for key in actor._state_histories if key.startswith(f"{state_name}.")]
         if state_name in actor._state_histories:
             data.extend(
                 _state_history_to_table(
                     name, kind, state_name, is_active, actor._state_histories[state_name]
                 )
             )
-        elif is_prefilled:
-            for key in _key_list(_value):
-                sname = f"{state_name}.{key}"
-                assert sname in actor._state_histories
+        elif key_names:
+            for sname in key_names:
                 data.extend(
                     _state_history_to_table(
                         name, kind, sname, is_active, actor._state_histories[sname]
-- 
2.43.0


From 63adb85687e89712fe3660761d4af2d59e1ea7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 40/83] fix: let a SteppedMotionManager that shut itself down
 run again

Motion that started later was never checked for detections.
---
 src/upstage_des/motion/stepped_motion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 97bab13..2565d04 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -197,6 +197,8 @@ class SteppedMotionManager(UpstageBase):
             if self._only_event_test():
                 n_empty += 1
                 if n_empty >= self._max_empty_events:
+                    # allow later motion to start it again
+                    self._is_running = False
                     return
             else:
                 n_empty = 0
-- 
2.43.0


From 50987246f5f3c002c549ca6735f48f96f54550bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 41/83] fix: allow actors that stopped moving to become
 detectable

A SteppedMotionManager raised a KeyError for actors it no longer knows.
---
 src/upstage_des/motion/stepped_motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 2565d04..147b9b6 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -298,7 +298,8 @@ class SteppedMotionManager(UpstageBase):
         Could be called for any reason; use this feature to alert sensors that
         an object should be considered by that sensor.
         """
-        self._run_detectable(detectable_req=[detectable])
+        if detectable in self._detectables:
+            self._run_detectable(detectable_req=[detectable])
 
     def _start_mover(self, mover: Actor, speed: float, waypoints: list[LOC_TYPES]) -> None:
         # we don't need this method, except to hook into motion states
-- 
2.43.0


From f4c5641ac3a49b7b1332d0be0aedbf6d930689d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 42/83] fix: keep a frozen state that holds None frozen

---
 src/upstage_des/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 9a77065..b09362d 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -251,8 +251,8 @@ class State(Generic[ST]):
             value (Any): The state's value
         """
         if self._frozen:
-            old_value = instance.__dict__.get(self.name, None)
-            if old_value is not None:
+            if self.name in instance.__dict__:
+                old_value = instance.__dict__[self.name]
                 raise SimulationError(
                     f"State '{self}' on '{instance}' has already been frozen "
                     f"to value of {old_value}. It cannot be changed once set!"
-- 
2.43.0


From 3b4d67f39b90f62798e451f84f20d8a650498f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 43/83] fix: let recording functions of key/value states record
 duplicates

---
 src/upstage_des/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index b09362d..dada9cb 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1212,7 +1212,7 @@ class _KeyValueBase(State):
             frozen=True,
             valid_types=valid_types,
             recording=False,
-            record_duplicates=False,
+            record_duplicates=record_duplicates,
             recording_functions=recording_functions,
         )
         self._record_indiv = recording
-- 
2.43.0


From 60b73f5abaf49d5fd98e21960aa09f299b23b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 44/83] fix: move along waypoints that are given in radians

---
 src/upstage_des/states.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index dada9cb..4de3098 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -763,8 +763,8 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         starts: list[GeodeticLocation] = []
         for wypt in waypoints:
             dist, bear = STAGE.stage_model.distance_and_bearing(
-                (current.lat, current.lon),
-                (wypt.lat, wypt.lon),
+                current.latlon(),
+                wypt.latlon(),
                 units=STAGE.distance_units,
             )
             time = dist / speed
@@ -879,7 +879,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
             moved_distance = (time_along / path_time) * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
-                (path_start.lat, path_start.lon),
+                path_start.latlon(),
                 path_bearing,
                 moved_distance,
                 STAGE.distance_units,
-- 
2.43.0


From 26f50b7589547d4eca75ff69f9c112fb314205cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 45/83] fix: allow for rounding of the current time at the end
 of a cartesian path

---
 src/upstage_des/states.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 4de3098..e5d4451 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -10,6 +10,7 @@ from collections.abc import Callable, Iterable
 from copy import deepcopy
 from dataclasses import fields, replace
 from enum import Enum
+from math import ulp
 from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
 
 from simpy import Container, Environment, Store
@@ -519,6 +520,18 @@ class LinearChangingState(ActiveState[float]):
         return return_value
 
 
+def _time_tolerance(now: float) -> float:
+    """The rounding error allowed when subtracting from the current time.
+
+    Args:
+        now (float): The current time
+
+    Returns:
+        float: The tolerance
+    """
+    return max(1e-12, 16 * ulp(now))
+
+
 class CartesianLocationChangingState(ActiveState[CartesianLocation]):
     """A state that contains the location in 3-dimensional Cartesian space.
 
@@ -599,12 +612,15 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, tol: float = 1e-12
+    ) -> tuple[int, float]:
         """Find out how far along waypoints the state is.
 
         Args:
             path_data (dict[str, Any]): Data about the movement path
             time_elapsed (float): Time spent moving
+            tol (float, optional): Time allowed past the end of a leg. Defaults to 1e-12.
 
         Returns:
             int: index in waypoints
@@ -614,7 +630,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         t: float
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-12):
+            if time_elapsed <= (sum_t + tol):
                 return i, sum_t - t
         raise SimulationError(
             "CartesianLocation active state exceeded travel time: "
@@ -634,7 +650,7 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, _time_tolerance(current_time))
         return list(data["waypoints"][idx:])
 
     def _active(self, instance: "Actor") -> CartesianLocation | None:
@@ -667,7 +683,9 @@ class CartesianLocationChangingState(ActiveState[CartesianLocation]):
             return_value: CartesianLocation = data["value"]  # pragma: no cover
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(
+                path_data, elapsed, _time_tolerance(current_time)
+            )
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_start: CartesianLocation = path_data["starts"][wypt_index]
-- 
2.43.0


From 32a20fda623b96c5869ffae9164e74556c961f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 46/83] fix: restore a task's environment when its rehearsal
 fails

---
 src/upstage_des/task.py | 46 +++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 4ec4bd2..473c917 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -384,8 +384,32 @@ class Task(SettableEnv):
         Returns:
             Actor: The cloned actor with a state reflecting the task flow.
         """
-        knowledge = {} if knowledge is None else knowledge
         _old_env = self.env
+        try:
+            return self._rehearse(actor, knowledge, cloned_actor, **kwargs)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
+
+    def _rehearse(
+        self,
+        actor: REH_ACTOR,
+        knowledge: dict[str, Any] | None,
+        cloned_actor: bool,
+        **kwargs: Any,
+    ) -> REH_ACTOR:
+        """Rehearse the task, leaving the task in its rehearsing state.
+
+        Args:
+            actor (Actor): The actor to rehearse in the task
+            knowledge (dict[str, Any] | None): Knowledge to add to the actor.
+            cloned_actor (bool): If the actor is a clone or not.
+            kwargs (Any): Optional args to send to the task.
+
+        Returns:
+            Actor: The cloned actor with a state reflecting the task flow.
+        """
+        knowledge = {} if knowledge is None else knowledge
         understudy = actor
         if not cloned_actor:
             understudy = self._clone_actor(actor, knowledge)
@@ -418,8 +442,6 @@ class Task(SettableEnv):
                 #      f"{self.env.now - _old_env.now:.3g}]")
                 break
 
-        self.env = _old_env
-        self._rehearsing = False
         return understudy
 
     def _handle_interruption(
@@ -592,16 +614,18 @@ class DecisionTask(Task):
         """
         knowledge = {} if knowledge is None else knowledge
         _old_env = self.env
-        understudy = actor
-        if not cloned_actor:
-            understudy = self._clone_actor(actor, knowledge)
-        self.env = understudy.env
+        try:
+            understudy = actor
+            if not cloned_actor:
+                understudy = self._clone_actor(actor, knowledge)
+            self.env = understudy.env
 
-        self._rehearsing = True
+            self._rehearsing = True
 
-        self.rehearse_decision(actor=understudy)
-        self.env = _old_env
-        self._rehearsing = False
+            self.rehearse_decision(actor=understudy)
+        finally:
+            self.env = _old_env
+            self._rehearsing = False
         return understudy
 
     @process
-- 
2.43.0


From d11cf73b249ca37acb34980a464a4ab23309c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 47/83] fix: tell whether an Event completed in a rehearsal

---
 src/upstage_des/events.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index a851e96..786be0a 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -821,7 +821,7 @@ class Event(BaseEvent):
         Returns:
             SIM.Event
         """
-        if self.is_complete():
+        if self._event.processed:
             if self._auto_reset:
                 self.reset()
             else:
@@ -834,7 +834,7 @@ class Event(BaseEvent):
         Args:
             **kwargs (Any): key:values to store as payload.
         """
-        if self.is_complete():
+        if self._event.processed:
             raise SimulationError("Event has already completed")
         self._payload = kwargs
         self._event.succeed()
@@ -845,6 +845,8 @@ class Event(BaseEvent):
         Returns:
             bool
         """
+        if self.rehearsing:
+            return self.done_rehearsing
         return self._event.processed
 
     def get_payload(self) -> dict[str, tyAny]:
-- 
2.43.0


From 721754e37333308cf1a167a136750938c2a4fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 48/83] fix: tell which events inside nested multi-events
 completed in a rehearsal

---
 src/upstage_des/events.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/upstage_des/events.py b/src/upstage_des/events.py
index 786be0a..db1eb6d 100644
--- a/src/upstage_des/events.py
+++ b/src/upstage_des/events.py
@@ -378,6 +378,7 @@ class MultiEvent(BaseEvent):
                 )
         self.events = events
         self._simpy_event = None
+        self._sub_times: dict[BaseEvent, float] = {}
 
     @staticmethod
     def aggregation_function(times: list[float]) -> float:
@@ -445,13 +446,7 @@ class MultiEvent(BaseEvent):
             return_sub_events (bool, Optional): Whether to return all times or not.
                 Defaults to False.
         """
-        event_times = {
-            event: event.calculate_time_to_complete()
-            for event in self.events
-            if isinstance(event, BaseEvent)
-        }
-
-        time_to_complete = self.aggregation_function(list(event_times.values()))
+        time_to_complete, self._sub_times = self.calc_time_to_complete_with_sub()
 
         return time_to_complete
 
@@ -483,6 +478,17 @@ class MultiEvent(BaseEvent):
                 )
             event._start_rehearsal()
 
+    def _finish_sub_events(self, time: float) -> None:
+        """Finish rehearsing the sub-events, at any depth, that complete by a time.
+
+        Args:
+            time (float): The time the rehearsal of the outermost event takes.
+        """
+        for event, event_end_time in self._sub_times.items():
+            if isinstance(event, MultiEvent):
+                event._finish_sub_events(time)
+            event._finish_rehearsal(complete=event_end_time <= time)
+
     def rehearse(self) -> tuple[float, tyAny]:
         """Run the event in 'trial' mode without changing the real environment.
 
@@ -495,11 +501,9 @@ class MultiEvent(BaseEvent):
         self._start_rehearsal()
 
         event_response = None
-        time_to_finish, event_times = self.calc_time_to_complete_with_sub()
-
-        for event, event_end_time in event_times.items():
-            event._finish_rehearsal(complete=event_end_time <= time_to_finish)
+        time_to_finish = self.calculate_time_to_complete()
 
+        self._finish_sub_events(time_to_finish)
         self._finish_rehearsal(complete=True)
 
         return time_to_finish, event_response
-- 
2.43.0


From 00ae7a74e06be799d215f0010541f320877e7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 49/83] fix: clone every recorded history, also those of keys
 and recording functions

---
 src/upstage_des/actor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index f2904b8..e67a1f0 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1027,9 +1027,8 @@ Args:
                 setattr(clone, attribute_name, attribute)
 
         # update the state histories
-        for state_name in self._state_defs:
-            if state_name in self._state_histories:
-                clone._state_histories[state_name] = deepcopy(self._state_histories[state_name])
+        for history_name, history in self._state_histories.items():
+            clone._state_histories[history_name] = deepcopy(history)
 
         clone._knowledge = {}
         for name, data in self._knowledge.items():
-- 
2.43.0


From 84c8459e79d74371657a60e8d0366471946c5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 50/83] fix: rehearse a clone from the clone's time

---
 src/upstage_des/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/task.py b/src/upstage_des/task.py
index 473c917..65a2aa3 100644
--- a/src/upstage_des/task.py
+++ b/src/upstage_des/task.py
@@ -357,7 +357,7 @@ class Task(SettableEnv):
         Returns:
             Actor: Cloned actor
         """
-        mocked_env = MockEnvironment.mock(self.env)
+        mocked_env = MockEnvironment.mock(actor.env)
         self.env = mocked_env
         understudy = actor.clone(
             new_env=mocked_env,
-- 
2.43.0


From b46c6e386abb2b73d5f27ae83034d96598cf78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:53 +0000
Subject: [PATCH 51/83] fix: clone a CommunicationStore that was given its
 modes by the actor

---
 src/upstage_des/states.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e5d4451..9428bc6 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -11,7 +11,16 @@ from copy import deepcopy
 from dataclasses import fields, replace
 from enum import Enum
 from math import ulp
-from typing import TYPE_CHECKING, Any, Generic, Protocol, TypeVar, cast, runtime_checkable
+from typing import (
+    TYPE_CHECKING,
+    Any,
+    Generic,
+    NamedTuple,
+    Protocol,
+    TypeVar,
+    cast,
+    runtime_checkable,
+)
 
 from simpy import Container, Environment, Store
 
@@ -1124,6 +1133,13 @@ class ResourceState(State, Generic[T]):
         return cast(T, new)
 
 
+class _StoreWithModes(NamedTuple):
+    """A cloned communication store and its modes."""
+
+    store: Store
+    modes: list[str]
+
+
 class CommunicationStore(ResourceState[Store]):
     """A State class for communications inputs.
 
@@ -1186,10 +1202,26 @@ class CommunicationStore(ResourceState[Store]):
     def _modename(self) -> str:
         return "_" + self.name + "__mode_names_"
 
+    def _make_clone(self, instance: "Actor", copy: Store) -> Any:
+        """Clone the store, keeping the modes the instance was given.
+
+        Args:
+            instance (Actor): The owning actor
+            copy (Store): The store to copy
+
+        Returns:
+            Any: The copied store and its modes.
+        """
+        new = super()._make_clone(instance, copy)
+        return _StoreWithModes(new, sorted(instance.__dict__[self._modename]))
+
     def __set__(self, instance: "Actor", value: dict | Any) -> None:
         # See if the instance has any specific mode data to find.
         modes: str | list[str] | None = self._modes
-        if isinstance(value, dict) and "modes" in value:
+        if isinstance(value, _StoreWithModes):
+            modes = value.modes
+            value = value.store
+        elif isinstance(value, dict) and "modes" in value:
             value = value.copy()
             modes = value.pop("modes")
         super().__set__(instance, value)
-- 
2.43.0


From a941e56f93f1c516aedcf2d365c61ee6209e94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:24 +0000
Subject: [PATCH 52/83] fix: give a clone its own copies of the stores of a
 MultiStoreState

---
 src/upstage_des/states.py | 46 ++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 9428bc6..e3d129a 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -956,6 +956,26 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
 T = TypeVar("T", bound=Store | Container)
 
 
+def _clone_resource(env: Environment, resource: T, memory: dict[str, Any]) -> T:
+    """Make a store or container with the same contents as another.
+
+    Args:
+        env (Environment): The environment
+        resource (T): The store or container to copy
+        memory (dict[str, Any]): The inputs to make the new one with.
+
+    Returns:
+        T: The copied store or container
+    """
+    new = type(resource)(env, **memory)  # type: ignore [arg-type]
+    if isinstance(resource, Store) and isinstance(new, Store):
+        new.items = list(resource.items)
+    if isinstance(resource, Container) and isinstance(new, Container):
+        # This is a particularity of simpy containers
+        new._level = float(resource.level)
+    return cast(T, new)
+
+
 class ResourceState(State, Generic[T]):
     """A State class for States that are meant to be Stores or Containers.
 
@@ -1119,18 +1139,11 @@ class ResourceState(State, Generic[T]):
         Returns:
             T: The copied store or container
         """
-        base_class = type(copy)
         # A resource that was given directly has no remembered inputs.
         memory: dict[str, Any] = instance.__dict__.get(
             f"_memory_for_{self.name}", {"capacity": copy.capacity}
         )
-        new = base_class(instance.env, **memory)  # type: ignore [arg-type]
-        if isinstance(copy, Store) and isinstance(new, Store):
-            new.items = list(copy.items)
-        if isinstance(copy, Container) and isinstance(new, Container):
-            # This is a particularity of simpy containers
-            new._level = float(copy.level)
-        return cast(T, new)
+        return _clone_resource(instance.env, copy, memory)
 
 
 class _StoreWithModes(NamedTuple):
@@ -1581,13 +1594,30 @@ class MultiStoreState(DictionaryState[T]):
             )
         # process the values
         use: dict[str, T] = {}
+        memory: dict[str, tuple[T, dict[str, Any]]] = {}
         if not isinstance(value, dict):
             value = {name: {} for name in value}
         attrs: dict[str, Any] | T
         for name, attrs in value.items():
             use[name] = self._make_resource(env, attrs)
+            if isinstance(attrs, dict):
+                # remember what we did for cloning
+                given = {k: v for k, v in attrs.items() if k != "kind"}
+                memory[name] = (use[name], {**self._default_kwargs, **given})
 
         super().__set__(instance, use)
+        instance.__dict__[f"_memory_for_{self.name}"] = memory
+
+    def _make_clone(self, instance: "Actor") -> dict[str, T]:
+        memory = instance.__dict__[f"_memory_for_{self.name}"]
+        clones: dict[str, T] = {}
+        for name, resource in instance.__dict__[self.name].items():
+            made, inputs = memory.get(name, (None, {}))
+            if made is not resource:
+                # A resource that was given directly has no remembered inputs.
+                inputs = {"capacity": resource.capacity}
+            clones[name] = _clone_resource(instance.env, resource, inputs)
+        return clones
 
     def has_default(self) -> bool:
         # Force the state to be defined.
-- 
2.43.0


From a295d7b368af7cc33316445af96804d4cc7f379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 53/83] fix: measure the time until a level from the current
 level

---
 src/upstage_des/resources/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/resources/container.py b/src/upstage_des/resources/container.py
index 1569520..28ed8d6 100644
--- a/src/upstage_des/resources/container.py
+++ b/src/upstage_des/resources/container.py
@@ -220,7 +220,7 @@ class ContinuousContainer:
             return 0.0  # pragma: no cover
         elif rate == 0:
             return float("inf")  # pragma: no cover
-        time = (level - self._level) / rate
+        time = (level - self.level) / rate
         return time if time > 0 else float("inf")
 
     def time_until_done(self, rate: float = 0.0) -> float:
-- 
2.43.0


From d1c05940cf4a2c68b72fbed1115c9cf1096f9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:59 +0000
Subject: [PATCH 54/83] fix: accept cartesian paths that start or end on a
 sensor's edge

---
 src/upstage_des/motion/cartesian_model.py | 47 ++++++++++++++---------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index a7359c5..fbdfc5c 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -117,6 +117,10 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
+    # a mover that stays put, or a sensor with no extent, has no crossings
+    if path_dist == 0 or sensor_radius == 0:
+        return [], [], ["BAD", "BAD"], path_time
+
     sensor_location_tup = sensor_location._as_array()
     intersections, times = ray_intersection(
         start_tup,
@@ -125,26 +129,33 @@ def cartesian_linear_intersection(
         sensor_radius,
         speed,
     )
-    if not intersections or min(times) > path_time:
-        return [], [], ["BAD", "BAD"], path_time
+    hits = [(t, CartesianLocation(*loc)) for t, loc in sorted(zip(times, intersections))]
 
-    # filter out intersections beyond the path length
-    idxs = sorted(range(len(times)), key=lambda i: times[i])
-    inters = [CartesianLocation(*intersections[i]) for i in idxs if times[i] <= path_time]
-    times = [times[i] for i in idxs if times[i] <= path_time]
-    type_start = "START_INSIDE" if start_inside else "ENTER"
-    type_end = "END_INSIDE" if finish_inside else "EXIT"
+    # An end of the path can be on the edge of the sensor, where it is also one of the
+    # intersections, or where rounding moves the intersection past the end.
     if start_inside:
-        inters = [start] + inters
-        times = [0] + times
+        exit_time, exit_loc = hits[-1] if hits else (0.0, start)
+        if exit_time > path_time:
+            exit_time, exit_loc = path_time, finish
+        return [start, exit_loc], [0, exit_time], ["START_INSIDE", "EXIT"], path_time
+
+    # an intersection before the start of a path from outside is rounding, too
+    if len(hits) == 1:
+        hits.insert(0, (0.0, start))
+
     if finish_inside:
-        inters = inters + [finish]
-        times = times + [path_time]
-    if len(inters) != 2:
-        raise MotionAndDetectionError(
-            f"There should be two intersections, not {len(inters)} ({inters})"
+        enter_time, enter_loc = hits[0] if hits else (path_time, finish)
+        if enter_time > path_time:
+            enter_time, enter_loc = path_time, finish
+        return (
+            [enter_loc, finish],
+            [enter_time, path_time],
+            ["ENTER", "END_INSIDE"],
+            path_time,
         )
-    if len(times) != 2:
-        raise MotionAndDetectionError("There should be two time intersections")
 
-    return inters, times, [type_start, type_end], path_time
+    if not hits or hits[0][0] >= path_time:
+        return [], [], ["BAD", "BAD"], path_time
+    if hits[1][0] > path_time:
+        hits[1] = (path_time, finish)
+    return [loc for _, loc in hits], [t for t, _ in hits], ["ENTER", "EXIT"], path_time
-- 
2.43.0


From 980c1ca03f96abbf804df0dbca46424e9d40a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:59 +0000
Subject: [PATCH 55/83] fix: notify a sensor of a mover that leaves as soon as
 it enters

---
 src/upstage_des/motion/motion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index d463213..73757b5 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -342,9 +342,10 @@ class SensorMotionManager(UpstageBase):
         if second_kind != "EXIT":
             return None
 
-        end_time_from_now = second_time - self.env.now
-        if end_time_from_now <= 0:
+        if second_time < first_time:
             raise MotionAndDetectionError("Detection end time is less than detection start")
+        # A path that only touches the range has both at once, up to rounding.
+        end_time_from_now = max(0.0, second_time - self.env.now)
 
         try:
             yield self.env.timeout(end_time_from_now)
-- 
2.43.0


From e23ab67bc99468f0db2a9ea110b00e8d61e6e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 56/83] fix: let a mover become detectable again before its
 motion ends

---
 src/upstage_des/motion/motion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 73757b5..82049a2 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -164,7 +164,11 @@ class SensorMotionManager(UpstageBase):
             del self._in_view[mover]
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
+        was_moving = mover in self._movers
         self._stop_mover(mover, from_not_detectable=True)
+        if was_moving:
+            # The motion may go on, and the mover may be detectable again when it ends.
+            self._movers[mover] = (0.0, [], 0.0)
 
     def _mover_became_detectable(self, mover: Actor) -> None:
         """Called via DetectabilityState when a mover becomes detectable.
@@ -454,7 +458,7 @@ class SensorMotionManager(UpstageBase):
             self._movers[mover] = (0.0, [], 0.0)
             return None
 
-        if mover in self._movers:
+        if mover in self._movers and self._movers[mover][1]:
             raise MotionAndDetectionError(
                 f"Mover: {mover} is already known to be on a path. Did you forget to stop it?"
             )
-- 
2.43.0


From 9354d2769dfd2bc10f681f048e117c9ca2d2b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 57/83] fix: let a sensor stop or hide the mover it is notified
 of

---
 src/upstage_des/motion/motion.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 82049a2..9474f2c 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -138,7 +138,9 @@ class SensorMotionManager(UpstageBase):
         # in case a new sensor pops up
         if mover in self._events:
             for _, proc in self._events.get(mover, []):
-                if proc.is_alive:
+                # A sensor that stops the mover it is told of is running in the process
+                # that told it, which ends by itself.
+                if proc.is_alive and proc is not self.env.active_process:
                     proc.interrupt()
             del self._events[mover]
 
@@ -155,13 +157,11 @@ class SensorMotionManager(UpstageBase):
         Args:
             mover (Actor): The mover.
         """
-        if mover in self._in_view:
-            for sensor in self._in_view[mover]:
-                # This will cause some old data to stick around, but that's
-                # instead of making new events to clear it out and then having
-                # to end those clearing events if this happens
-                sensor.entity_exited_range(mover)
-            del self._in_view[mover]
+        # This will cause some old data to stick around, but that's
+        # instead of making new events to clear it out and then having
+        # to end those clearing events if this happens
+        for sensor in self._in_view.pop(mover, {}):
+            sensor.entity_exited_range(mover)
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         was_moving = mover in self._movers
@@ -327,6 +327,7 @@ class SensorMotionManager(UpstageBase):
         """
         # times are absolute on input to this method
         notify_time_from_now = first_time - self.env.now
+        motion = self._movers.get(mover)
 
         if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
             was_in = self._add_to_view(mover, sensor)
@@ -340,8 +341,12 @@ class SensorMotionManager(UpstageBase):
                 self._end_notify(mover, sensor, "before entry")
                 return None
 
-            sensor.entity_entered_range(mover)
             self._add_to_view(mover, sensor)
+            sensor.entity_entered_range(mover)
+
+        if self._movers.get(mover) is not motion:
+            self._end_notify(mover, sensor, "at entry")
+            return None
 
         if second_kind != "EXIT":
             return None
@@ -357,8 +362,8 @@ class SensorMotionManager(UpstageBase):
             self._end_notify(mover, sensor, "before exit")
             return None
 
-        sensor.entity_exited_range(mover)
         self._remove_from_view(mover, sensor)
+        sensor.entity_exited_range(mover)
         return None
 
     def _schedule(
-- 
2.43.0


From 985a4c41cbdf930d9786b23a68d492d30d9f186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:33 +0000
Subject: [PATCH 58/83] fix: do not show a mover that one sensor hid to the
 next sensor

---
 src/upstage_des/motion/stepped_motion.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/motion/stepped_motion.py b/src/upstage_des/motion/stepped_motion.py
index 147b9b6..da8e1db 100644
--- a/src/upstage_des/motion/stepped_motion.py
+++ b/src/upstage_des/motion/stepped_motion.py
@@ -166,6 +166,9 @@ class SteppedMotionManager(UpstageBase):
             for detectable, d_loc in zip(detectable_req, detect_locs):
                 if detectable is sensor:
                     continue
+                # an earlier sensor may have hidden it
+                if not self._test_detect(detectable):
+                    continue
                 visible = self._detect_dist(loc, radius, d_loc, sensor)
                 self._do_log((self.env.now, sensor, loc, detectable, d_loc))
                 self._update_awareness(sensor, detectable, visible)
@@ -284,13 +287,9 @@ class SteppedMotionManager(UpstageBase):
         an object should no longer be considered by that sensor.
         """
         # TODO: key on detectable may make it faster
-        to_rem = []
-        for sensor, detect in self._in_view:
+        for sensor, detect in list(self._in_view):
             if detect is detectable:
-                sensor.entity_exited_range(detectable)
-                to_rem.append((sensor, detect))
-        for pair in to_rem:
-            self._in_view.pop(pair, None)
+                self._update_awareness(sensor, detect, visible=False)
 
     def _mover_became_detectable(self, detectable: Actor) -> None:
         """Called via DetectabilityState state when an object becomes detectable.
-- 
2.43.0


From 64474d6e2adb21727a05aa4573cc5e94fc76368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 59/83] fix: do not notify of a motion that a sensor ended as
 it started

---
 src/upstage_des/motion/motion.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 9474f2c..e47e25d 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -312,6 +312,7 @@ class SensorMotionManager(UpstageBase):
         second_time: float,
         first_kind: str,
         second_kind: str,
+        motion: tuple[float, LOC_LIST, float],
     ) -> Generator[SimpyEvent, Any, None]:
         """Notify a sensor about a mover.
 
@@ -324,10 +325,15 @@ class SensorMotionManager(UpstageBase):
             second_time (float): Time of the second
             first_kind (str): Kind of the first
             second_kind (str): Kind of the second
+            motion (tuple[float, LOC_LIST, float]): The motion that this is about
         """
         # times are absolute on input to this method
         notify_time_from_now = first_time - self.env.now
-        motion = self._movers.get(mover)
+
+        # another sensor can have ended the motion in the instant it started
+        if self._movers.get(mover) is not motion:
+            self._end_notify(mover, sensor, "before entry")
+            return None
 
         if first_kind == "START_INSIDE" or notify_time_from_now <= 0:
             was_in = self._add_to_view(mover, sensor)
@@ -411,7 +417,15 @@ class SensorMotionManager(UpstageBase):
             self._debug_log.append(msg)
 
         proc = self.env.process(
-            self._notify(mover, sensor, first_time, second_time, first_kind, second_kind)
+            self._notify(
+                mover,
+                sensor,
+                first_time,
+                second_time,
+                first_kind,
+                second_kind,
+                self._movers[mover],
+            )
         )
         if mover not in self._events:
             self._events[mover] = [
-- 
2.43.0


From 7a88ad6fd8065a25b3fabf2a06bb3e1713c91f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:31 +0000
Subject: [PATCH 60/83] fix: notify sensors of a mover that left their range
 between motions

---
 src/upstage_des/motion/motion.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index e47e25d..b598c78 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -5,6 +5,7 @@
 """This file contains a queueing motion manager for sensor/mover intersections."""
 
 from collections.abc import Callable, Generator
+from math import inf
 from typing import Any, Protocol, TypeVar
 from warnings import warn
 
@@ -454,6 +455,17 @@ class SensorMotionManager(UpstageBase):
         for m in movers:
             for s in sensors:
                 inter_pairs = self._process_mover_sensor_pair(m, s)
+                motion_start = self._movers[m][2]
+                if s in self._in_view.get(m, {}) and motion_start == self.env.now:
+                    # A motion that doesn't start where the last one ended can have left the range.
+                    kind, time, _ = inter_pairs[0][0] if inter_pairs else ("", inf, None)
+                    if kind != "START_INSIDE" and time > motion_start:
+                        loc = self._movers[m][1][0]
+                        left = (
+                            ("START_INSIDE", motion_start, loc),
+                            ("EXIT", motion_start, loc),
+                        )
+                        inter_pairs.insert(0, left)
                 for pair in inter_pairs:
                     self._schedule(m, s, pair)
 
-- 
2.43.0


From 53154a4c4027a2117e082ad00952fcc81f4ba2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 61/83] fix: find no crossings for a sensor without extent or a
 mover that stays put

---
 src/upstage_des/motion/cartesian_model.py | 22 +++++++++++-----------
 src/upstage_des/motion/motion.py          |  4 +---
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/upstage_des/motion/cartesian_model.py b/src/upstage_des/motion/cartesian_model.py
index fbdfc5c..25b73f9 100644
--- a/src/upstage_des/motion/cartesian_model.py
+++ b/src/upstage_des/motion/cartesian_model.py
@@ -117,18 +117,18 @@ def cartesian_linear_intersection(
         the_times = [0, path_time]
         return inters, the_times, ["START_INSIDE", "END_INSIDE"], path_time
 
-    # a mover that stays put, or a sensor with no extent, has no crossings
-    if path_dist == 0 or sensor_radius == 0:
-        return [], [], ["BAD", "BAD"], path_time
-
     sensor_location_tup = sensor_location._as_array()
-    intersections, times = ray_intersection(
-        start_tup,
-        finish_tup,
-        sensor_location_tup,
-        sensor_radius,
-        speed,
-    )
+    intersections: list[XYZ] = []
+    times: list[float] = []
+    # a mover that stays put, or a sensor with no extent, has no crossings
+    if path_dist > 0 and sensor_radius > 0:
+        intersections, times = ray_intersection(
+            start_tup,
+            finish_tup,
+            sensor_location_tup,
+            sensor_radius,
+            speed,
+        )
     hits = [(t, CartesianLocation(*loc)) for t, loc in sorted(zip(times, intersections))]
 
     # An end of the path can be on the edge of the sensor, where it is also one of the
diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index b598c78..20e64b3 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -358,9 +358,7 @@ class SensorMotionManager(UpstageBase):
         if second_kind != "EXIT":
             return None
 
-        if second_time < first_time:
-            raise MotionAndDetectionError("Detection end time is less than detection start")
-        # A path that only touches the range has both at once, up to rounding.
+        # A path that only touches the range has both times at once, up to rounding.
         end_time_from_now = max(0.0, second_time - self.env.now)
 
         try:
-- 
2.43.0


From c4d9a1d213c7705c123d560a5f9b74325415096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 62/83] fix: interpolate between spherical points that coincide

---
 src/upstage_des/geography/spherical.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index cbef601..ab1aa01 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -78,6 +78,9 @@ class Spherical(SphericalConversions):
         Returns:
             LAT_LON: Lat and Lon (degrees)
         """
+        if d == 0:
+            # nothing to go along
+            return degrees(lat1), degrees(lon1)
         a = sin((1 - f) * d) / sin(d)
         b = sin(f * d) / sin(d)
         x = a * cos(lat1) * cos(lon1) + b * cos(lat2) * cos(lon2)
@@ -204,11 +207,14 @@ class Spherical(SphericalConversions):
         v2 = cls._ll2cart(end[0], end[1])
         # v1 and W are orthonormal, and the end point is at t radians from v1
         d = _vector_dot(v1, v2)
-        common = sqrt(-1 / ((d - 1) * (d + 1)))
-        alpha, beta = -d * common, common
+        w = [y - d * x for x, y in zip(v1, v2)]
+        w_norm = _vector_norm(w)
+        # any direction does for points that coincide
+        if w_norm == 0 and d > 0:
+            w_norm = 1.0
         t = 2 * asin(min(1.0, _vector_norm(_vector_subtract(v2, v1)) / 2))
 
-        W = tuple([alpha * x + beta * y for x, y in zip(v1, v2)])
+        W = tuple([x / w_norm for x in w])
         assert len(W) == 3
         W = (W[0], W[1], W[2])
 
-- 
2.43.0


From 867fe2fe6fcad16eb89dced30efd147c4c77f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 63/83] fix: let a spherical bearing and distance lead to a
 pole

---
 src/upstage_des/geography/spherical.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index ab1aa01..44c6318 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -345,10 +345,11 @@ class Spherical(SphericalConversions):
         lat1 = radians(lat)
         lon1 = radians(lon)
 
-        lat2 = asin(
-            sin(lat1) * cos(dist / spherical_radius)
-            + cos(lat1) * sin(dist / spherical_radius) * cos(bearing)
-        )
+        sin_lat2 = sin(lat1) * cos(dist / spherical_radius) + cos(lat1) * sin(
+            dist / spherical_radius
+        ) * cos(bearing)
+        # rounding can go past +/-1 at the poles
+        lat2 = asin(max(-1.0, min(1.0, sin_lat2)))
 
         lon2 = lon1 + atan2(
             sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
-- 
2.43.0


From 6dfff44e965309fd6ce8889f298e33c5bf3e4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 64/83] fix: convert WGS84 ECEF points at the poles to
 lat/lon/altitude

---
 src/upstage_des/geography/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/geography/conversions.py b/src/upstage_des/geography/conversions.py
index eb846cb..2d2a4d2 100644
--- a/src/upstage_des/geography/conversions.py
+++ b/src/upstage_des/geography/conversions.py
@@ -114,9 +114,9 @@ class BaseConversions:
         s = (1 + c + sqrt(c * c + 2 * c)) ** (1 / 3)
         P = F / (3 * (s + 1 / s + 1) ** 2 * G * G)
         Q = sqrt(1 + 2 * e2 * e2 * P)
-        ro = -(e2 * P * r) / (1 + Q) + sqrt(
-            (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
-        )
+        ro_2 = (a * a / 2) * (1 + 1 / Q) - ((1 - e2) * P * Z2) / (Q * (1 + Q)) - P * r2 / 2
+        # rounding can go below zero at the poles
+        ro = -(e2 * P * r) / (1 + Q) + sqrt(max(0.0, ro_2))
         tmp = (r - e2 * ro) ** 2
         U = sqrt(tmp + Z2)
         V = sqrt(tmp + (1 - e2) * Z2)
-- 
2.43.0


From ad20f89e4753f42177a9ef71eadfae5577a796f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 65/83] fix: follow a spherical bearing that starts at a pole

---
 src/upstage_des/geography/spherical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index 44c6318..cd707bc 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -351,9 +351,11 @@ class Spherical(SphericalConversions):
         # rounding can go past +/-1 at the poles
         lat2 = asin(max(-1.0, min(1.0, sin_lat2)))
 
+        # this form also holds at the poles
         lon2 = lon1 + atan2(
-            sin(bearing) * sin(dist / spherical_radius) * cos(lat1),
-            cos(dist / spherical_radius) - sin(lat1) * sin(lat2),
+            sin(bearing) * sin(dist / spherical_radius),
+            cos(dist / spherical_radius) * cos(lat1)
+            - sin(dist / spherical_radius) * sin(lat1) * cos(bearing),
         )
 
         return degrees(lat2), degrees(lon2)
-- 
2.43.0


From 43fe44297befe4b23abbfe7adf022e6ed1c3d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 66/83] fix: measure the spherical distance between antipodes

---
 src/upstage_des/geography/spherical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/upstage_des/geography/spherical.py b/src/upstage_des/geography/spherical.py
index cd707bc..fbea756 100644
--- a/src/upstage_des/geography/spherical.py
+++ b/src/upstage_des/geography/spherical.py
@@ -293,6 +293,7 @@ class Spherical(SphericalConversions):
         positions = [loc1[1], loc1[0], loc2[1], loc2[0]]
         lon1, lat1, lon2, lat2 = map(radians, positions)
         a = sin(0.5 * (lat2 - lat1)) ** 2 + cos(lat1) * cos(lat2) * sin(0.5 * (lon2 - lon1)) ** 2
+        a = min(1.0, a)  # rounding can go past 1 between antipodes
 
         dist_m = spherical_radius * 2 * atan2(sqrt(a), sqrt(1.0 - a))
         return unit_convert(dist_m, "m", units)
-- 
2.43.0


From c809d1eb66385cdb57f8db22a5aef9df8357a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 67/83] fix: find intersections on short path segments

---
 src/upstage_des/geography/intersections.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/upstage_des/geography/intersections.py b/src/upstage_des/geography/intersections.py
index 802d55e..0088b04 100644
--- a/src/upstage_des/geography/intersections.py
+++ b/src/upstage_des/geography/intersections.py
@@ -41,14 +41,8 @@ def _preprocess(
     start_alt = start_lla[2]
     finish_alt = finish_lla[2]
     dist = earth.distance(start_lla[:2], finish_lla[:2], units="m")
-    points = int(dist / dist_between) + 1
-    while points <= 2:
-        dist_between = dist_between / 2.0
-        if dist_between < 100:
-            raise IntersectionError(
-                f"Intersetion Segment {start_lla} -> {finish_lla} is too small!"
-            )
-        points = int(dist / dist_between) + 1
+    # short segments are still divided
+    points = max(3, int(dist / dist_between) + 1)
     ecef_point = earth.lla2ecef([point_lla])[0]
     assert len(ecef_point) == 3
     ecef_test, geo_test = earth.ecef_and_geo_linspace(
-- 
2.43.0


From 63852ec5a409f53463ea7684908d83064d170927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:44 +0000
Subject: [PATCH 68/83] fix: format times in units of any case

---
 src/upstage_des/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index d952c44..21758e6 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -349,7 +349,7 @@ class UpstageBase:
         time_unit = self.stage.get("time_unit", None)
         # If it's explicitly set to None, still treat it as hours.
         time_unit = "hr" if time_unit is None else time_unit
-        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit)
+        standard = TIME_ALTERNATES.get(time_unit.lower(), time_unit.lower())
 
         ts: str
         if standard in STANDARD_TIMES:
-- 
2.43.0


From 2fb85615d2c088de9a7703d4aa0189b5608c00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 69/83] fix: treat states that hold a location as locations in
 the data tables

---
 src/upstage_des/data_utils/data_utils.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 9241366..127c5ce 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -15,7 +15,7 @@ from upstage_des.states import (
 )
 
 ACTUAL_LOCATION = GeodeticLocation | CartesianLocation
-LOCATION_TYPES = ACTUAL_LOCATION | GeodeticLocationChangingState | CartesianLocationChangingState
+LOCATION_TYPES = GeodeticLocationChangingState | CartesianLocationChangingState
 STATIC_STATE = "Last Seen"
 
 STATE_DATA_ROW = tuple[str, str, str, float, Any, str | None]
@@ -24,6 +24,19 @@ COLUMN_NAMES = ["Entity Name", "Entity Type", "State Name", "Time"]
 ACTIVATION_STATUS_COL = "Activation Status"
 
 
+def _is_location(state: Any, value: Any) -> bool:
+    """Test if a state is a location state, or any other state that holds a location.
+
+    Args:
+        state (Any): The state
+        value (Any): The value of the state
+
+    Returns:
+        bool: If the state is a location.
+    """
+    return isinstance(state, LOCATION_TYPES) or isinstance(value, ACTUAL_LOCATION)
+
+
 def _state_history_to_table(
     actor_name: str,
     actor_kind: str,
@@ -91,9 +104,9 @@ def _actor_state_data(
     name, kind = actor.name, actor.__class__.__name__
 
     for state_name, state in actor._state_defs.items():
-        if skip_locations and isinstance(state, LOCATION_TYPES):
-            continue
         _value = actor.__dict__[state_name]
+        if skip_locations and _is_location(state, _value):
+            continue
         is_active = isinstance(state, ActiveState)
         # dictionary and dataclass states record each key that they have ever held
         key_names = [key for key in actor._state_histories if key.startswith(f"{state_name}.")]
@@ -147,7 +160,7 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
     name, kind = actor.name, actor.__class__.__name__
     for state_name, state_data in actor._state_histories.items():
         _state = actor._state_defs.get(state_name, None)
-        if not isinstance(_state, LOCATION_TYPES):
+        if not _is_location(_state, actor.__dict__.get(state_name)):
             continue
         value: ACTUAL_LOCATION | ActiveStatus
         is_active = isinstance(_state, ActiveState)
@@ -162,6 +175,9 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 is_xyz = False
             elif isinstance(value, CartesianLocation):
                 row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
+            else:
+                # a state can hold other things before it holds a location
+                continue
             data.append(cast(LOCATION_DATA_ROW, row))
     cols = ["X", "Y", "Z"] if is_xyz else ["Lat", "Lon", "Alt"]
     return data, cols
-- 
2.43.0


From 8253d6b7cc90068bb07ae05059a79eecc0eaa0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 70/83] fix: tabulate locations in the same units in every row

---
 src/upstage_des/data_utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 127c5ce..9971ce6 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -171,10 +171,11 @@ def _actor_location_data(actor: Actor) -> tuple[list[LOCATION_DATA_ROW], list[st
                 row = tuple(list(_row[:-1]) + [value.name])
                 active_value = "active" if value.name == "activating" else "inactive"
             elif isinstance(value, GeodeticLocation):
+                value = value.to_degrees()
                 row = (name, kind, state_name, time, value.lat, value.lon, value.alt, active_value)
                 is_xyz = False
             elif isinstance(value, CartesianLocation):
-                row = (name, kind, state_name, time, value.x, value.y, value.z, active_value)
+                row = (name, kind, state_name, time, *value._as_array(), active_value)
             else:
                 # a state can hold other things before it holds a location
                 continue
-- 
2.43.0


From ecccdbc00cdbf3360ddc2e33eb1f11cba31882a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 71/83] fix: tabulate the monitored resources of a
 MultiStoreState as its entries

---
 src/upstage_des/data_utils/data_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/upstage_des/data_utils/data_utils.py b/src/upstage_des/data_utils/data_utils.py
index 9971ce6..75d1b1d 100644
--- a/src/upstage_des/data_utils/data_utils.py
+++ b/src/upstage_des/data_utils/data_utils.py
@@ -11,6 +11,7 @@ from upstage_des.states import (
     ActiveStatus,
     CartesianLocationChangingState,
     GeodeticLocationChangingState,
+    MultiStoreState,
     _DictionaryProxy,
 )
 
@@ -126,6 +127,17 @@ def _actor_state_data(
         elif hasattr(_value, "_quantities"):
             resources.append(_value)
             data.extend(_state_history_to_table(name, kind, state_name, False, _value._quantities))
+        elif isinstance(state, MultiStoreState):
+            for k, v in _value.items():
+                if hasattr(v, "_quantities"):
+                    resources.append(v)
+                    data.extend(
+                        _state_history_to_table(
+                            name, kind, f"{state_name}.{k}", False, v._quantities
+                        )
+                    )
+                elif save_static:
+                    data.append((name, kind, f"{state_name}.{k}", 0.0, v, STATIC_STATE))
         elif save_static:
             the_value = getattr(actor, state_name)
             if isinstance(the_value, _DictionaryProxy):
-- 
2.43.0


From 9b3fe9ad3261fe539ecb97b4272b3806b024a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:27 +0000
Subject: [PATCH 72/83] fix: compare geodetic locations in degrees and radians
 the same both ways

A location in degrees could differ from itself in radians in one order of
the comparison and equal it in the other, and equal locations had different
hashes.
---
 src/upstage_des/data_types.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 84adeb8..0b5181f 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -502,23 +502,18 @@ class GeodeticLocation(Location):
         """
         if not isinstance(other, GeodeticLocation):
             raise ValueError(f"Cannot compare a {other.__class__.__name__} to a GeodeticLocation")
-        if other.in_radians != self.in_radians:
-            if self.in_radians:
-                other = other.to_radians()
-            else:
-                other = other.to_degrees()
-        return all(
-            getattr(self, dimension) == getattr(other, dimension)
-            for dimension in ["lat", "lon", "alt"]
-        )
+        if other.in_radians == self.in_radians:
+            return self._to_tuple() == other._to_tuple()
+        # Convert the same way in either order of the comparison.
+        return self.to_radians()._to_tuple() == other.to_radians()._to_tuple()
 
     def __hash__(self) -> int:
-        """Hash based on the key.
+        """Hash based on the position, so that equal locations have equal hashes.
 
         Returns:
             int: The hash.
         """
-        return hash(self._key())
+        return hash(self.to_radians()._to_tuple())
 
 
 class CartesianLocationData:
@@ -622,11 +617,11 @@ class GeodeticLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a GeodeticLocationData"
             )
-        other = [value.lat, value.lon]
+        mine, other = [self.lat, self.lon], [value.lat, value.lon]
         if value.in_radians != self.in_radians:
+            # Convert the same way in either order of the comparison.
             if self.in_radians:
                 other = list(map(radians, other))
             else:
-                other = list(map(degrees, other))
-        angles = [self.lat, self.lon] == other
-        return angles and self.alt == value.alt
+                mine = list(map(radians, mine))
+        return mine == other and self.alt == value.alt
-- 
2.43.0


From 3c076e1f9ad36a6e1a58811930efcaf52f7d6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:00 +0000
Subject: [PATCH 73/83] fix: tell cartesian data with heights in different
 units apart

---
 src/upstage_des/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upstage_des/data_types.py b/src/upstage_des/data_types.py
index 0b5181f..0c10a91 100644
--- a/src/upstage_des/data_types.py
+++ b/src/upstage_des/data_types.py
@@ -558,7 +558,7 @@ class CartesianLocationData:
             raise ValueError(
                 f"Cannot compare a {value.__class__.__name__} to a CartesianLocationData"
             )
-        check = ["x", "y", "z"]
+        check = ["x", "y", "z", "use_altitude_unts"]
         return all(getattr(self, c) == getattr(value, c) for c in check)
 
 
-- 
2.43.0


From 255cc68b2b4e81861e86dc9afeb4a137e8b0783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 74/83] fix: measure the WGS84 distance between points a
 rounding error apart

---
 src/upstage_des/geography/wgs84.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/upstage_des/geography/wgs84.py b/src/upstage_des/geography/wgs84.py
index 90f273c..be92836 100644
--- a/src/upstage_des/geography/wgs84.py
+++ b/src/upstage_des/geography/wgs84.py
@@ -112,6 +112,9 @@ class WGS84(WGS84Conversions):
 
             cos_sigma = sin_u1 * sin_u2 + cos_u1 * cos_u2 * cos_lambda
             sigma = atan2(sin_sigma, cos_sigma)
+            if sigma == 0:
+                # The points are too close to be told apart.
+                return 0.0, 0.0
             sin_alpha = cos_u1 * cos_u2 * sin_lambda / sin_sigma
             cos_sq_alpha = 1 - sin_alpha**2
             try:
-- 
2.43.0


From 0c1d4ce06b14e8f0c55011000111020cf842e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:57 +0000
Subject: [PATCH 75/83] fix: tell entities that compare equal apart

---
 src/upstage_des/actor.py                | 2 +-
 src/upstage_des/base.py                 | 2 +-
 src/upstage_des/resources/monitoring.py | 2 +-
 src/upstage_des/states.py               | 5 +----
 4 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index e67a1f0..04912d8 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -260,7 +260,7 @@ Args:
         Called by the NamedUpstageEntity on group inits.
         """
         ans = SPECIAL_ENTITY_CONTEXT_VAR.get().actors
-        if self in ans:
+        if any(x is self for x in ans):
             return
         ans.append(self)
 
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 21758e6..e33d9ba 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -393,7 +393,7 @@ class NamedUpstageEntity(UpstageBase):
         try:
             ans = ENTITY_CONTEXT_VAR.get()
             ans.setdefault(group_name, [])
-            if self in ans[group_name]:
+            if any(x is self for x in ans[group_name]):
                 raise UpstageError(f"Entity: {self} already recorded in the environment")
             ans[group_name].append(self)
         except LookupError:
diff --git a/src/upstage_des/resources/monitoring.py b/src/upstage_des/resources/monitoring.py
index 8047930..96a6e65 100644
--- a/src/upstage_des/resources/monitoring.py
+++ b/src/upstage_des/resources/monitoring.py
@@ -43,7 +43,7 @@ class MonitoringMixin(NamedUpstageEntity, skip_classname=True):
         Called by the NamedUpstageEntity on group inits.
         """
         ans = SPECIAL_ENTITY_CONTEXT_VAR.get().monitored
-        if self in ans:
+        if any(x is self for x in ans):
             return
         ans.append(self)
 
diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index e3d129a..9f39c98 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -1052,7 +1052,6 @@ class ResourceState(State, Generic[T]):
             valid_types=valid_types,
         )
         self._default_kwargs = default_kwargs.copy() if default_kwargs is not None else {}
-        self._been_set: set[Actor] = set()
 
     def __set__(self, instance: "Actor", value: dict | Any) -> None:
         """Set the state value.
@@ -1061,7 +1060,7 @@ class ResourceState(State, Generic[T]):
             instance (Actor): The actor instance
             value (dict | Any): Either a dictionary of resource data OR an actual resource
         """
-        if instance in self._been_set:
+        if self.name in instance.__dict__:
             raise UpstageError(
                 f"State '{self}' on '{instance}' has already been created "
                 "It cannot be changed once set!"
@@ -1072,7 +1071,6 @@ class ResourceState(State, Generic[T]):
             if not isinstance(value, self._types):
                 raise UpstageError(f"Resource object: '{value}' is not an expected type.")
             instance.__dict__[self.name] = value
-            self._been_set.add(instance)
             return
 
         resource_type = value.get("kind", self._default)
@@ -1102,7 +1100,6 @@ class ResourceState(State, Generic[T]):
             raise UpstageError(f"Exception in ResourceState init: {e}")
 
         instance.__dict__[self.name] = resource_obj
-        self._been_set.add(instance)
         # remember what we did for cloning
         instance.__dict__["_memory_for_" + self.name] = kwargs.copy()
 
-- 
2.43.0


From 0b7a9488a86b3cf43a23860b9e71867769f46795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:57 +0000
Subject: [PATCH 76/83] fix: compare dictionary states with each other by their
 data

---
 src/upstage_des/state_proxies.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/upstage_des/state_proxies.py b/src/upstage_des/state_proxies.py
index 7e94ef3..bb78ce8 100644
--- a/src/upstage_des/state_proxies.py
+++ b/src/upstage_des/state_proxies.py
@@ -85,6 +85,8 @@ class _DictionaryProxy(Generic[VTD]):
         return len(self._wrapped)
 
     def __eq__(self, other: Any) -> bool:
+        if isinstance(other, _DictionaryProxy):
+            other = other._wrapped
         if not isinstance(other, dict):
             return False
         return other == self._wrapped
-- 
2.43.0


From 0b16572d59dcbd8ce0bcfebfe06eac4a5656f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:22 +0000
Subject: [PATCH 77/83] fix: leave an actor that could not be made out of the
 simulation's groups

---
 src/upstage_des/actor.py | 21 ++++++++++++++++++---
 src/upstage_des/base.py  |  8 ++++++++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 04912d8..a8904fc 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -150,10 +150,19 @@ class Actor(SettableEnv, NamedUpstageEntity):
         # Task Network Nucleus hook-ins
         self._state_listener: TaskNetworkNucleus | None = None
 
-        self.__init_states(**states)
+        monitored = SPECIAL_ENTITY_CONTEXT_VAR.get().monitored
+        num_monitored = len(monitored)
+        try:
+            self.__init_states(**states)
 
-        if initial_knowledge is not None:
-            self.set_bulk_knowledge(initial_knowledge, overwrite=True, caller="init")
+            if initial_knowledge is not None:
+                self.set_bulk_knowledge(initial_knowledge, overwrite=True, caller="init")
+        except Exception:
+            # An actor that could not be made is not part of the simulation,
+            # and neither are the resources that were made for its states.
+            self._remove_entity()
+            del monitored[num_monitored:]
+            raise
 
     def __init__(
         self,
@@ -264,6 +273,12 @@ Args:
             return
         ans.append(self)
 
+    def _remove_entity(self) -> None:
+        """Remove self from the actors' and the entities' groups."""
+        super()._remove_entity()
+        ans = SPECIAL_ENTITY_CONTEXT_VAR.get().actors
+        ans[:] = [x for x in ans if x is not self]
+
     def _lock_state(self, *, state: str, task: Task) -> None:
         """Lock one of the actor's states by a given task.
 
diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index e33d9ba..34c1890 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -421,6 +421,14 @@ class NamedUpstageEntity(UpstageBase):
             self._add_to_group(group_name)
         self._add_special_group()
 
+    def _remove_entity(self) -> None:
+        """Remove self from the entity groups."""
+        groups = ENTITY_CONTEXT_VAR.get()
+        for group_name, entities in list(groups.items()):
+            entities[:] = [x for x in entities if x is not self]
+            if not entities:
+                del groups[group_name]
+
     def __init__(self, *args: Any, **kwargs: Any) -> None:
         """Init the named entity."""
         super().__init__(*args, **kwargs)
-- 
2.43.0


From 705495c2ae25b8df169049fa86efd676e575f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 78/83] fix: undo a refused activation, which left the state
 locked

---
 src/upstage_des/actor.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index a8904fc..d319f34 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -347,14 +347,25 @@ Args:
         """
         if state not in self._state_defs:
             raise SimulationError(f"No state named '{state}' to activate")
+        _state = self._state_defs[state]
+        if not isinstance(_state, ActiveState):
+            raise SimulationError(f"State '{state}' is not an active type state.")
         self._lock_state(state=state, task=task)
+        old_data = self._active_states.get(state, None)
         self._set_active_state_data(state_name=state, started_at=self.env.now, task=task, **kwargs)
-        # any initialization in the state needs to be called via attribute access
-        getattr(self, state)
-        # The activation handles getattr
-        _state = self._state_defs[state]
-        assert isinstance(_state, ActiveState)
-        _state.activate(self, task=task)
+        try:
+            # any initialization in the state needs to be called via attribute access
+            getattr(self, state)
+            # The activation handles getattr
+            _state.activate(self, task=task)
+        except Exception:
+            # A refused activation leaves the state to others.
+            if old_data is None:
+                del self._active_states[state]
+            else:
+                self._active_states[state] = old_data
+            self._unlock_state(state=state, task=task)
+            raise
 
     def activate_linear_state(self, *, state: str, rate: float, task: Task) -> None:
         """Shortcut for activating a LinearChangingState.
-- 
2.43.0


From bf8ffbe041d9f27f94557880dcdb10fa27f77ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:44 +0000
Subject: [PATCH 79/83] fix: leave clones and their resources out of the
 simulation's groups and tables

---
 src/upstage_des/actor.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index d319f34..69c56bc 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -1011,6 +1011,9 @@ Args:
         knowledge = {} if knowledge is None else knowledge
         new_env = MockEnvironment.mock(self.env) if new_env is None else new_env
 
+        monitored = SPECIAL_ENTITY_CONTEXT_VAR.get().monitored
+        num_monitored = len(monitored)
+
         states: dict[str, Any] = {}
         no_init_states: dict[str, Any] = {}
         for state in self.states:
@@ -1030,12 +1033,18 @@ Args:
 
         self._num_clones += 1
 
-        clone = self.__class__(
-            name=self.name + f" [CLONE {self._num_clones}]",
-            debug_log=self._debug_logging,
-            debug_log_time=self._debug_log_time,
-            **states,
-        )
+        # Neither the clone nor its resources are part of the real simulation.
+        try:
+            clone = self.__class__(
+                name=self.name + f" [CLONE {self._num_clones}]",
+                debug_log=self._debug_logging,
+                debug_log_time=self._debug_log_time,
+                **states,
+            )
+        finally:
+            del monitored[num_monitored:]
+        clone._remove_entity()
+
         clone.env = new_env
         clone.__dict__.update(no_init_states)
 
-- 
2.43.0


From a94f47dc500d6dde63e47eaf1e7f3e26f77ce283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:39 +0000
Subject: [PATCH 80/83] fix: turn at a geodetic waypoint when it is reached,
 not up to 1e-4 later

---
 src/upstage_des/states.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/upstage_des/states.py b/src/upstage_des/states.py
index 9f39c98..a036c7e 100644
--- a/src/upstage_des/states.py
+++ b/src/upstage_des/states.py
@@ -825,12 +825,15 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
                     [data["value"]] + waypoints,
                 )
 
-    def _get_index(self, path_data: dict[str, Any], time_elapsed: float) -> tuple[int, float]:
+    def _get_index(
+        self, path_data: dict[str, Any], time_elapsed: float, tol: float = 1e-12
+    ) -> tuple[int, float]:
         """Get the index of the waypoint the path is on.
 
         Args:
             path_data (dict[str, Any]): Data about the motion
             time_elapsed (float): Time spent on motion
+            tol (float, optional): Time allowed past the end of a leg. Defaults to 1e-12.
 
         Returns:
             int: Index of the waypoint
@@ -838,9 +841,11 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         """
         sum_t = 0.0
         t: float
+        last = len(path_data["times"]) - 1
         for i, t in enumerate(path_data["times"]):
             sum_t += t
-            if time_elapsed <= (sum_t + 1e-4):  # near one second allowed
+            # near one second allowed past the end of the path
+            if time_elapsed <= sum_t + (1e-4 if i == last else tol):
                 return i, sum_t - t
         raise SimulationError(
             f"GeodeticLocation active state exceeded travel time: Elapsed: {time_elapsed}, "
@@ -860,7 +865,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
         current_time: float = data["now"]
         path_start_time: float = data["started_at"]
         elapsed = current_time - path_start_time
-        idx, _ = self._get_index(data["path_data"], elapsed)
+        idx, _ = self._get_index(data["path_data"], elapsed, _time_tolerance(current_time))
         wypts: list[GeodeticLocation] = data["waypoints"]
         return wypts[idx:]
 
@@ -898,13 +903,17 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             return_value: GeodeticLocation = data["value"]  # pragma: no cover
         else:
             # Get the location along the waypoint path
-            wypt_index, wypt_start = self._get_index(path_data, elapsed)
+            wypt_index, wypt_start = self._get_index(
+                path_data, elapsed, _time_tolerance(current_time)
+            )
             time_along = elapsed - wypt_start
             path_time: float = path_data["times"][wypt_index]
             path_dist: float = path_data["distances"][wypt_index]
             path_bearing: float = path_data["bearings"][wypt_index]
             path_start: GeodeticLocation = path_data["starts"][wypt_index]
-            moved_distance = (time_along / path_time) * path_dist
+            # the path ends at its last waypoint
+            time_frac = min(1.0, time_along / path_time) if path_time > 0 else 1.0
+            moved_distance = time_frac * path_dist
             new_point = STAGE.stage_model.point_from_bearing_dist(
                 path_start.latlon(),
                 path_bearing,
@@ -914,7 +923,7 @@ class GeodeticLocationChangingState(ActiveState[GeodeticLocation]):
             # update the altitude
             waypoint: GeodeticLocation = data["waypoints"][wypt_index]
             alt_shift = waypoint.alt - path_start.alt
-            alt_shift *= time_along / path_time
+            alt_shift *= time_frac
             new_alt = path_start.alt + alt_shift
             # make the right kind of location object
             lat, lon = new_point[0], new_point[1]
-- 
2.43.0


From 69e49663a06b6cf9dfbc158a1b865006dc3bef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:49 +0000
Subject: [PATCH 81/83] fix: show whole seconds in pretty_now despite rounding

---
 src/upstage_des/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/upstage_des/base.py b/src/upstage_des/base.py
index 34c1890..d1ee9b6 100644
--- a/src/upstage_des/base.py
+++ b/src/upstage_des/base.py
@@ -353,10 +353,11 @@ class UpstageBase:
 
         ts: str
         if standard in STANDARD_TIMES:
-            now_hrs = unit_convert(now, time_unit, "hr")
-            day = floor(now_hrs / 24)
-            rem_hours = now_hrs - (day * 24)
-            hms = strftime("%H:%M:%S", gmtime(rem_hours * 3600))
+            # rounding can go just below a whole second
+            now_sec = round(unit_convert(now, time_unit, "s"), 6)
+            day = floor(now_sec / (24 * 3600))
+            rem_sec = now_sec - (day * 24 * 3600)
+            hms = strftime("%H:%M:%S", gmtime(rem_sec))
             ts = f"[Day {day:4.0f} - {hms:s}]"
         else:
             day_unit_count = self.stage.get("daily_time_count", None)
-- 
2.43.0


From 48078dd92949cb53ad4ea5b4cc6ac90d7411115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:14 +0000
Subject: [PATCH 82/83] fix: keep no entries of tasks that locked or mimicked
 states and gave them up

The table of states per task grew by an entry for every task that ever
activated a state, or only asked for all of its states to be deactivated,
and kept each of those tasks alive.
---
 src/upstage_des/actor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/actor.py b/src/upstage_des/actor.py
index 69c56bc..ec471df 100644
--- a/src/upstage_des/actor.py
+++ b/src/upstage_des/actor.py
@@ -417,6 +417,9 @@ Args:
             self._tasks_by_state[state].remove(task)
         else:
             raise UpstageError(f"State '{state}' was not activated by '{task}', cannot deactivate")
+        # keep nothing of a task that locks no more states
+        if not self._states_by_task[task]:
+            del self._states_by_task[task]
 
     def deactivate_states(self, *, states: str | Iterable[str], task: Task) -> None:
         """Set a list of active states to not active.
@@ -456,7 +459,7 @@ Args:
         Args:
             task (Task): The task that is deactivating the states.
         """
-        state_names = list(self._states_by_task[task])
+        state_names = list(self._states_by_task.get(task, {}))
         self.deactivate_states(states=state_names, task=task)
 
     def get_active_state_data(
@@ -550,6 +553,8 @@ Args:
             mimic_actor._remove_callback_from_state(self_state_name, mimic_state)
         del self._mimic_states[self_state]
         del self._mimic_states_by_task[task][self_state]
+        if not self._mimic_states_by_task[task]:
+            del self._mimic_states_by_task[task]
 
     def deactivate_all_mimic_states(self, *, task: Task) -> None:
         """Deactivate all mimicking states in the actor for a given task.
@@ -557,7 +562,7 @@ Args:
         Args:
             task (Task): The task where states are mimicking others.
         """
-        for state in list(self._mimic_states_by_task[task]):
+        for state in list(self._mimic_states_by_task.get(task, {})):
             self.deactivate_mimic_state(self_state=state, task=task)
 
     def _add_callback_to_state(
-- 
2.43.0


From 870d9f513059b8cb3e4cdbdae98a0fd2b09a23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:13 +0000
Subject: [PATCH 83/83] fix: tell every sensor of a mover that hides, though
 one of them fails

An error of one sensor's entity_exited_range left the other sensors, and the
manager itself, unaware that the mover was no longer detectable.
---
 src/upstage_des/motion/motion.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/upstage_des/motion/motion.py b/src/upstage_des/motion/motion.py
index 20e64b3..08771d6 100644
--- a/src/upstage_des/motion/motion.py
+++ b/src/upstage_des/motion/motion.py
@@ -5,6 +5,7 @@
 """This file contains a queueing motion manager for sensor/mover intersections."""
 
 from collections.abc import Callable, Generator
+from contextlib import ExitStack
 from math import inf
 from typing import Any, Protocol, TypeVar
 from warnings import warn
@@ -161,8 +162,18 @@ class SensorMotionManager(UpstageBase):
         # This will cause some old data to stick around, but that's
         # instead of making new events to clear it out and then having
         # to end those clearing events if this happens
-        for sensor in self._in_view.pop(mover, {}):
-            sensor.entity_exited_range(mover)
+        with ExitStack() as stack:
+            # A sensor that fails doesn't keep the others, or this manager, from knowing.
+            stack.callback(self._stop_undetectable, mover)
+            for sensor in reversed(self._in_view.pop(mover, {})):
+                stack.callback(sensor.entity_exited_range, mover)
+
+    def _stop_undetectable(self, mover: Actor) -> None:
+        """Stop the motion of a mover that became undetectable.
+
+        Args:
+            mover (Actor): The mover.
+        """
         # It is unsure if the user will stop the motion via a task first
         # or change detectability first
         was_moving = mover in self._movers
-- 
2.43.0

