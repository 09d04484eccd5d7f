From 193c306217b49e416de183db725d458ca45f9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 01/85] fix: schedulers use the model's default_interval

The schedulers looked for `default_interval` in the model but then read the
unrelated `interval` attribute, so any model that defined a default interval
could not be created.
---
 soil/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index 9d73781..f9b1a8a 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -37,7 +37,7 @@ class DiscreteActivation(BaseScheduler):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
-            self.default_interval = self.model.interval
+            self.default_interval = self.model.default_interval
 
 
 class PQueueActivation(DiscreteActivation):
-- 
2.43.0


From f761d525274dbfe405cd7090e8e229cd658672a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 02/85] fix: schedule.add activates the agent at the requested
 time

`add` passed `when` as the `replace` argument of `_schedule`. The requested
time was ignored, and the priority queue scheduler dropped another agent (or
failed on an empty queue) for every agent added after time 0.
---
 soil/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index f9b1a8a..67c6692 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -61,7 +61,7 @@ class PQueueActivation(DiscreteActivation):
         else:
             when = float(when)
 
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
@@ -132,7 +132,7 @@ class TimedActivation(DiscreteActivation):
             when = self.time
         else:
             when = float(when)
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-- 
2.43.0


From 1139d00a1a496cfbb0928c23711e8a064f778e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 03/85] fix: agents added during a PQueueActivation step are
 not lost

The agent being run was left at the top of the heap and replaced after its
step. If another agent was added during that step, it could take the top of
the heap: the new agent was then dropped and the old one scheduled twice.
---
 soil/time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 67c6692..a5e31f9 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -95,18 +95,20 @@ class PQueueActivation(DiscreteActivation):
                 next_time = when
                 break
 
+            # Agents may be added to the queue during this step, so this agent
+            # has to be removed from the queue before it is run.
+            heappop(self._queue)
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
-                heappop(self._queue)
                 continue
 
             if when == INFINITY:
-                heappop(self._queue)
                 continue
 
-            self._schedule(agent, when, replace=True)
+            self._schedule(agent, when)
 
         self.steps += 1
 
-- 
2.43.0


From 698b7f0195fc370bb78a9fbc6252a0f342db448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 04/85] fix: stop the model when TimedActivation runs out of
 agents

PQueueActivation sets `model.running` to False when there are no more agents to
run, but TimedActivation did not. A simulation without a `max_time` never
finished if all its agents died.
---
 soil/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index a5e31f9..eef039a 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -155,6 +155,7 @@ class TimedActivation(DiscreteActivation):
         an agent will signal when it wants to be scheduled next.
         """
         if not self._queue:
+            self.model.running = False
             return
 
         now = self.time
@@ -182,6 +183,7 @@ class TimedActivation(DiscreteActivation):
         if self._queue:
             self.time = self._queue[0][0]
         else:
+            self.model.running = False
             self.time = INFINITY
 
 
-- 
2.43.0


From 3584662628231ac963fb42c79be9d3cb515d2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 05/85] fix: refuse to schedule agents in the past

An agent that asked to be run at a time that had already passed made the clock
of TimedActivation go backwards for every agent.
---
 soil/time.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index eef039a..3a4fc57 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -39,6 +39,10 @@ class DiscreteActivation(BaseScheduler):
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.default_interval
 
+    def _check_future(self, agent, when):
+        if when < self.time:
+            raise ValueError(f"Cannot schedule {agent!r} for a time in the past ({when} < {self.time})")
+
 
 class PQueueActivation(DiscreteActivation):
     """
@@ -67,6 +71,7 @@ class PQueueActivation(DiscreteActivation):
     def _schedule(self, agent, when=None, replace=False):
         if when is None:
             when = self.time
+        self._check_future(agent, when)
         if self._shuffle:
             key = (when, self.model.random.random())
         else:
@@ -139,6 +144,7 @@ class TimedActivation(DiscreteActivation):
 
     def _schedule(self, agent, when=None, replace=False):
         when = when or self.time
+        self._check_future(agent, when)
         pos = len(self._queue)
         for (ix, l) in enumerate(self._queue):
             if l[0] == when:
-- 
2.43.0


From 202c1958d30f75287833d874b38345f790c1465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 06/85] fix: do not activate agents that have been removed from
 the schedule

Agents stayed in the queue of the scheduler after being removed (e.g., when
they are killed by another agent), and they were activated nevertheless.
---
 soil/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 3a4fc57..53498aa 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -103,6 +103,8 @@ class PQueueActivation(DiscreteActivation):
             # Agents may be added to the queue during this step, so this agent
             # has to be removed from the queue before it is run.
             heappop(self._queue)
+            if agent not in self._agents:
+                continue
 
             try:
                 when = agent.step() or self.default_interval
@@ -176,6 +178,8 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
+            if agent not in self._agents:
+                continue
             try:
                 when = agent.step() or self.default_interval
                 when += now
-- 
2.43.0


From 60f67060df83b578a60883b7a8f77049cfa325ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 07/85] fix: adding an agent to the schedule twice does not
 queue it twice

The second call raises a ValueError, but the agent had already been queued again.
---
 soil/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 53498aa..6c44978 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -65,8 +65,8 @@ class PQueueActivation(DiscreteActivation):
         else:
             when = float(when)
 
-        self._schedule(agent, when)
         super().add(agent)
+        self._schedule(agent, when)
 
     def _schedule(self, agent, when=None, replace=False):
         if when is None:
@@ -141,8 +141,8 @@ class TimedActivation(DiscreteActivation):
             when = self.time
         else:
             when = float(when)
-        self._schedule(agent, when)
         super().add(agent)
+        self._schedule(agent, when)
 
     def _schedule(self, agent, when=None, replace=False):
         when = when or self.time
-- 
2.43.0


From b822e821cc86ed0b451a711fd5664cb1b421c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 08/85] fix: agents see the right time when using a Lockstepper

The clock was not updated within each interval, so agents saw the time of the
previous interval and `agent.at` calculated the wrong delay.
---
 soil/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 6c44978..120fc4d 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -233,6 +233,8 @@ class Lockstepper:
         end_time = self.time + self.default_interval
         res = None
         while self.scheduler.time < end_time:
+            # Agents should see the actual time of their activation
+            self.time = self.scheduler.time
             res = self.scheduler.step()
         self.time = end_time
         self.steps += 1
-- 
2.43.0


From b1f14a3a126178d3c68ce6352e0de2bf603cb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 09/85] fix: default_interval may be given as a parameter of
 the environment

The scheduler was created before the parameters were set, so it ignored it.
---
 soil/environment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 743da85..9e37118 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -94,15 +94,16 @@ class BaseEnvironment(Model):
         else:
             self.logger = utils.logger.getChild(self.id)
 
+        # The scheduler may depend on some of the parameters (e.g., default_interval)
+        for (k, v) in env_params.items():
+            self[k] = v
+
         self.schedule = schedule
         if schedule is None:
             if schedule_class is None:
                 schedule_class = self.schedule_class
             self.schedule = schedule_class(self)
 
-        for (k, v) in env_params.items():
-            self[k] = v
-
         if agents:
             self.add_agents(**agents)
         if init:
-- 
2.43.0


From 4ff138246dcbfa39f028d0fb7e815d45484cdbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 10/85] fix: dead agents never run again

Only FSM agents checked whether they were alive, and only when their generator
was started. Any other agent, or an FSM agent in the middle of an asynchronous
state, could be run after its death. The error was not raised consistently
either: it was skipped in every other step.
---
 soil/agents/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 08f71b5..b44dae5 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -28,6 +28,7 @@ IGNORED_FIELDS = ("model", "logger")
 def decorate_generator_step(func, name):
     @wraps(func)
     def decorated(self):
+        self._check_alive()
         while True:
             if self._coroutine is None:
                 self._coroutine = func(self)
@@ -49,6 +50,7 @@ def decorate_generator_step(func, name):
 def decorate_normal_func(func, name):
     @wraps(func)
     def decorated(self):
+        self._check_alive()
         val = func(self)
         return float(val) if val is not None else val
     return decorated
-- 
2.43.0


From 274fbddacfe4998ec8e37316d6fb1d7fd6410c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 11/85] fix: agent filters apply every given attribute

The lambda functions were evaluated lazily, when `k` and `vs` already had the
value for the last attribute. The rest of the attributes were ignored.
---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index b44dae5..f7b637f 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -483,7 +483,7 @@ def filter_agents(
     for k, vs in state.items():
         if not isinstance(vs, list):
             vs = [vs]
-        f = filter(lambda agent: any(getattr(agent, k, None) == v for v in vs), f)
+        f = filter(lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f)
 
     if limit is not None:
         f = islice(f, limit)
-- 
2.43.0


From 55884323f7f944f50982c986853c1cfa01e0fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 12/85] fix: filtering agents does not modify the state given
 by the caller

---
 soil/agents/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index f7b637f..b96fb47 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -477,8 +477,7 @@ def filter_agents(
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
 
-    state = state or dict()
-    state.update(kwargs)
+    state = dict(state or {}, **kwargs)
 
     for k, vs in state.items():
         if not isinstance(vs, list):
-- 
2.43.0


From fdec6588a5e0030cb37231103deb28864c946a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 13/85] fix: filtering by an empty list of ids returns no
 agents

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index b96fb47..18cfbaf 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -456,7 +456,7 @@ def filter_agents(
     if id_args:
         ids += id_args
 
-    if ids:
+    if ids or unique_id is not None:
         f = (agent for agent in agents if agent.unique_id in ids)
     else:
         f = agents
-- 
2.43.0


From 0383496fc9e23ec0763b3e437983b28177f08a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 14/85] fix: network agents can filter agents and neighbors by
 unique_id

The argument was ignored.
---
 soil/agents/network_agents.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 2d0a948..cbb3363 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -38,7 +38,7 @@ class NetworkAgent(BaseAgent):
 
     def iter_agents(self, unique_id=None, *, limit_neighbors=False, **kwargs):
         unique_ids = None
-        if unique_ids is not None:
+        if unique_id is not None:
             try:
                 unique_ids = set(unique_id)
             except TypeError:
@@ -50,12 +50,13 @@ class NetworkAgent(BaseAgent):
                 agent = self.G.nodes[node_id].get("agent")
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
-            if unique_ids:
+            if unique_ids is not None:
                 unique_ids = unique_ids & neighbor_ids
             else:
                 unique_ids = neighbor_ids
             if not unique_ids:
                 return
+        if unique_ids is not None:
             unique_ids = list(unique_ids)
         yield from super().iter_agents(unique_id=unique_ids, **kwargs)
 
-- 
2.43.0


From 6ca1da87822ea13e061c63694e16adc25b349030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 15/85] fix: iterate and index agent views

AgentView expected a dictionary of agents, but the agents of a scheduler are a
mesa AgentSet. Iterating over `env.get_agents`, getting an agent by its id or
checking if an id is included failed.
---
 soil/agents/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 18cfbaf..ffb338a 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -403,13 +403,17 @@ class AgentView(Mapping, Set):
         return len(self._agents)
 
     def __iter__(self):
-        yield from self._agents.values()
+        yield from self._agents
+
+    def keys(self):
+        return [agent.unique_id for agent in self._agents]
 
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-        if agent_id in self._agents:
-            return self._agents[agent_id]
+        for agent in self._agents:
+            if agent.unique_id == agent_id:
+                return agent
         raise ValueError(f"Agent {agent_id} not found")
 
     def filter(self, *args, **kwargs):
@@ -422,7 +426,7 @@ class AgentView(Mapping, Set):
         return list(self.filter(*args, **kwargs))
 
     def __contains__(self, agent_id):
-        return agent_id in self._agents
+        return agent_id in self.keys()
 
     def __str__(self):
         return str(list(unique_id for unique_id in self.keys()))
-- 
2.43.0


From 457d892740941dd601fc6df7a2c02b9489ab8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 16/85] fix: agents are assigned to any free node before adding
 new ones

The nodes were sampled with replacement, so a new node was often added to the
network when there were still nodes without an agent.
---
 soil/agents/network_agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index cbb3363..4a903e8 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -8,7 +8,7 @@ class NetworkAgent(BaseAgent):
         self.G = topology or self.model.G
         assert self.G is not None, "Network agents should have a network"
         if node_id is None:
-            nodes = self.random.choices(list(self.G.nodes), k=len(self.G))
+            nodes = self.random.sample(list(self.G.nodes), k=len(self.G))
             for n_id in nodes:
                 if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
                     node_id = n_id
-- 
2.43.0


From fb2cc73422a1ce626194cb1d051fa763f7104cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 17/85] fix: new nodes for agents never replace existing nodes

The id of the new node was the size of the network, which may be the id of an
existing node (e.g., after an agent dies and its node is removed, or when nodes
are not numbered from 0). The agent in that node lost its node.
---
 soil/agents/network_agents.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 4a903e8..a3d3b1e 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -15,6 +15,8 @@ class NetworkAgent(BaseAgent):
                     break
             else:
                 node_id = len(self.G)
+                while node_id in self.G:
+                    node_id += 1
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
-- 
2.43.0


From e41c0efcca8ead4a87e0b7e31ecb972a0de0ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 18/85] fix: FSM states can return state ids with two
 characters

A two-character string was unpacked as a (state, delay) tuple.
---
 soil/agents/fsm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 85a5fb5..a15acf9 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -143,15 +143,14 @@ class FSM(BaseAgent, metaclass=MetaFSM):
         self._check_alive()
         next_state = yield from self._state.step(self)
 
-        try:
-            next_state, when = next_state
-        except (TypeError, ValueError) as ex:
+        if not isinstance(next_state, (tuple, list)):
             try:
                 self._set_state(next_state)
                 return None
             except ValueError:
                 return next_state
 
+        next_state, when = next_state
         self._set_state(next_state)
         return when
 
-- 
2.43.0


From b801937e812287a1315dc7d7ba14e014eb1ba059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 19/85] fix: agents start in the redefined version of their
 default state

If a subclass redefined the default state of its parent, its agents still run
the version of the parent in their first activations.
---
 soil/agents/fsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index a15acf9..6aab3d8 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -95,6 +95,10 @@ class MetaFSM(MetaAgent):
                     default_state = func
                 states[func.name] = func
 
+        # The default state may have been redefined
+        if default_state is not None:
+            default_state = states[default_state.name]
+
         namespace.update(
             {
                 "_state": default_state,
-- 
2.43.0


From c13153a9774557fbbe3c671a344965822e30ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 20/85] fix: evented agents have an inbox in their init method

---
 soil/agents/evented.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5cf69dc..9e86ad9 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -7,9 +7,10 @@ from types import coroutine
 
 class EventedAgent(BaseAgent):
     def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+        # The inbox may be used in the init method of the agent
         self._inbox = deque()
         self._processed = 0
+        super().__init__(*args, **kwargs)
 
     def on_receive(self, *args, **kwargs):
         pass
-- 
2.43.0


From 3bca6ade2b084988388ec885e6f286f80433f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 21/85] fix: agents can be sent messages while they process
 their messages

The inbox was modified while iterating over it, which raised an exception.
---
 soil/agents/evented.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 9e86ad9..ac274d8 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -44,7 +44,9 @@ class EventedAgent(BaseAgent):
 
     def process_messages(self):
         valid = list()
-        for msg in self._inbox:
+        # New messages may be received while processing the current ones
+        for _ in range(len(self._inbox)):
+            msg = self._inbox.popleft()
             self._processed += 1
             if msg.expired(self.now):
                 continue
@@ -52,7 +54,6 @@ class EventedAgent(BaseAgent):
             reply = self.on_receive(msg.payload, sender=msg.sender)
             if isinstance(msg, Ask):
                 msg.reply = reply
-        self._inbox.clear()
         return valid
 
 
-- 
2.43.0


From 98eaea673faad149dc252107061072486aef3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 22/85] fix: EventedAgent.received returns the messages that
 were received

It returned the inbox itself, which is empty after processing the messages.
---
 soil/agents/evented.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index ac274d8..9531643 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -21,10 +21,9 @@ class EventedAgent(BaseAgent):
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-                msgs = self._inbox
                 if process:
-                    self.process_messages()
-                return msgs
+                    return self.process_messages()
+                return self._inbox
             yield self.delay(delay)
         raise TimedOut("No message received")
 
-- 
2.43.0


From 2f5b20cf43cbc5a88cba702f932f1ef09f021b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 23/85] fix: any value can be the reply to a question

Replies such as 0 or False were ignored, and the question timed out.
---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 9531643..d9489bd 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -36,7 +36,7 @@ class EventedAgent(BaseAgent):
         self._inbox.append(ask)
         expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
-            if ask.reply:
+            if ask.reply is not None:
                 return ask.reply
             yield self.delay(delay)
         raise TimedOut("No reply received")
-- 
2.43.0


From 51a17ced8b3638e300d626b4edf1849c56bfa183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 24/85] fix: EventedAgent.ask honours its expiration argument

---
 soil/agents/evented.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index d9489bd..c0dbb80 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -34,7 +34,8 @@ class EventedAgent(BaseAgent):
     def ask(self, msg, expiration=None, timeout=None, delay=1):
         ask = Ask(timestamp=self.now, payload=msg, sender=self)
         self._inbox.append(ask)
-        expiration = float("inf") if timeout is None else self.now + timeout
+        if expiration is None:
+            expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
             if ask.reply is not None:
                 return ask.reply
-- 
2.43.0


From a5d581130bdf62689c644fd1b9da0687e2e11edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 25/85] fix: EventedAgent.received ignores messages that have
 expired

If all the messages in the inbox had expired, it returned without any message
instead of waiting for one.
---
 soil/agents/evented.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index c0dbb80..9f03d60 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -21,9 +21,9 @@ class EventedAgent(BaseAgent):
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-                if process:
-                    return self.process_messages()
-                return self._inbox
+                msgs = self.process_messages() if process else self._inbox
+                if msgs:
+                    return msgs
             yield self.delay(delay)
         raise TimedOut("No message received")
 
-- 
2.43.0


From 35541d56c66d3a58728c11887f024756f5fa00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 26/85] fix: agent reporters can be limited to a type of agent

The reporter called itself until the recursion limit was exceeded.
---
 soil/environment.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 9e37118..059daf9 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -208,10 +208,14 @@ class BaseEnvironment(Model):
         self.datacollector._new_model_reporter(name, func)
 
     def add_agent_reporter(self, name, reporter=None, agent_type=None):
-        if not agent_type and not reporter:
+        if not reporter:
             reporter = name
-        elif agent_type:
-            reporter = lambda a: reporter(a) if isinstance(a, agent_type) else None
+        if agent_type:
+            if isinstance(reporter, str):
+                value = lambda a, attr=reporter: getattr(a, attr, None)
+            else:
+                value = reporter
+            reporter = lambda a: value(a) if isinstance(a, agent_type) else None
         self.datacollector._new_agent_reporter(name, reporter)
 
     @classmethod
-- 
2.43.0


From a4fa0d638c91593db05e0c96bc55ad6a00592361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 27/85] fix: agent_df shows the time of every record

The steps were replaced with times by position. That failed if there was more
than one step in the same instant, and used the wrong times when some step had
no agents.
---
 soil/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 059daf9..370a229 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -128,8 +128,8 @@ class BaseEnvironment(Model):
         if steps:
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
-        model_df = self.datacollector.get_model_vars_dataframe()
-        df.index = df.index.set_levels(model_df.time, level=0).rename(["time", "agent_id"])
+        times = self.datacollector.get_model_vars_dataframe().time
+        df.index = df.index.map(lambda ix: (times[ix[0]], ix[1])).rename(["time", "agent_id"])
         return df
 
     def model_df(self, steps=False):
-- 
2.43.0


From 9127f926a3a5735e93b6375d7f25c6ec9327d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 28/85] fix: SoilCollector does not modify the model reporters
 it is given

---
 soil/datacollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 9687435..68fdc9d 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -3,7 +3,8 @@ from mesa import DataCollector as MDC
 
 class SoilCollector(MDC):
     def __init__(self, model_reporters=None, agent_reporters=None, tables=None, **kwargs):
-        model_reporters = model_reporters or {}
+        # Copied, to avoid modifying the reporters of the caller
+        model_reporters = dict(model_reporters or {})
         agent_reporters = agent_reporters or {}
         tables = tables or {}
         if 'agent_count' not in model_reporters:
-- 
2.43.0


From b9f9044e4f736a940ddef132275b8e346f0be66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 29/85] fix: reporters given as parameters only apply to those
 parameters

They were added to the simulation, and used with any other parameters.
---
 soil/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 389207b..0b79f6d 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -217,9 +217,9 @@ class Simulation:
 
         iteration_id = str(iteration_id)
 
-        agent_reporters = self.agent_reporters
+        agent_reporters = dict(self.agent_reporters)
         agent_reporters.update(params.pop("agent_reporters", {}))
-        model_reporters = self.model_reporters
+        model_reporters = dict(self.model_reporters)
         model_reporters.update(params.pop("model_reporters", {}))
 
         return self.model(
-- 
2.43.0


From 4981b787a0e6475cffd1060203cb49fb0497b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 30/85] fix: combine the parameters of a simulation with its
 matrix

The parameters were run on their own, and they were missing in every
combination of values in the matrix.
---
 soil/simulation.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 0b79f6d..968f838 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -174,15 +174,13 @@ class Simulation:
     def _collect_params(self):
 
         parameters = []
-        if self.parameters:
-            parameters.append(self.parameters)
         if self.matrix:
             assert isinstance(self.matrix, dict)
             for values in product(*(self.matrix.values())):
-                parameters.append(dict(zip(self.matrix.keys(), values)))
+                parameters.append(dict(self.parameters, **dict(zip(self.matrix.keys(), values))))
+        else:
+            parameters.append(self.parameters)
 
-        if not parameters:
-            parameters = [{}]
         if self.dump:
             self.logger.info("Output directory: %s", self.outdir)
 
-- 
2.43.0


From 3ec60e2af5735f5affda8ae6c5e92247e6235b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 31/85] fix: do not apply the matrix twice when loading
 simulations from a file

Simulations that are run in the file are split by parameters, but each of them
kept the original matrix.
---
 soil/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 968f838..2d9faa0 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -45,7 +45,8 @@ def do_not_run():
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
-        yield replace(cls, parameters=params)
+        # The parameters already include the values in the matrix
+        yield replace(cls, parameters=params, matrix={})
 
 
 # TODO: change documentation for simulation
-- 
2.43.0


From 8bb47e6dab65ea3cc90290113f1f16af0d8d3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 32/85] fix: discard the simulations in a file that cannot be
 loaded

The simulations that had been queued before the error were included in the
next file.
---
 soil/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/simulation.py b/soil/simulation.py
index 2d9faa0..5308faa 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -40,6 +40,7 @@ def do_not_run():
     finally:
         logger.debug("RUNNING AGAIN")
         _AVOID_RUNNING = False
+        _QUEUED.clear()
 
 
 def _iter_queued():
-- 
2.43.0


From 0d5bdf35a03a4d5aae831c5623f82faa00fc35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 33/85] fix: run_from_file uses a method that exists

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 5308faa..b74e9c9 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -362,7 +362,7 @@ def from_py(pyfile):
 def run_from_file(*files, **kwargs):
     for sim in iter_from_file(*files):
         logger.info(f"Using config(s): {sim.name}")
-        sim.run_simulation(**kwargs)
+        sim.run(**kwargs)
 
 def run(env, iterations=1, num_processes=1, dump=False, name="test", **kwargs):
     return Simulation(model=env, iterations=iterations, name=name, dump=dump, num_processes=num_processes, **kwargs).run()
\ No newline at end of file
-- 
2.43.0


From a556e9492a915a10bdc0276554208a077bf85f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 34/85] fix: create the output directory for the SQLite
 exporter

---
 soil/exporters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index 8986453..49334ea 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -134,6 +134,7 @@ class SQLite(Exporter):
             if os.path.exists(self.dbpath):
                 os.remove(self.dbpath)
         
+        os.makedirs(self.outdir, exist_ok=True)
         self.engine = create_engine(f"sqlite:///{self.dbpath}", echo=False)
 
         sim_dict = {k: serialize(v)[0] for (k,v) in self.simulation.to_dict().items()}
-- 
2.43.0


From b5701e3956235750bf284f4986607cb706b2a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 35/85] fix: export networks with agents to GEXF

The agent in each node cannot be written to a GEXF file.
---
 soil/exporters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 49334ea..710b2a3 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -186,8 +186,12 @@ class gexf(Exporter):
         with timer(
             "[GEXF] Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
+            # Agents cannot be serialized
+            G = env.G.copy()
+            for (_, data) in G.nodes(data=True):
+                data.pop("agent", None)
             with self.output("{}.gexf".format(env.id), mode="wb") as f:
-                nx.write_gexf(env.G, f)
+                network.dump_gexf(G, f)
 
 
 class dummy(Exporter):
-- 
2.43.0


From 205160b38ff34d3f6b49c4a6bb3186473dae7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 36/85] fix: read results without parameters or agent reporters

---
 soil/analysis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index ab7164c..92f82df 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -46,9 +46,15 @@ def read_sql(fpath=None, name=None, include_agents=False):
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
-        agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        try:
+            agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        except ValueError:  # There were no agent reporters
+            agents = pd.DataFrame()
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
-        parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
+        try:
+            parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
+        except (KeyError, ValueError):  # There were no parameters
+            parameters = pd.DataFrame(columns=["key", "value"])
         try:
             parameters = parameters.pivot(columns="key", values="value")
         except Exception as e:
-- 
2.43.0


From d48d45106ad55d4b926948db544bc9072ea96971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 37/85] fix: backups never replace previous backups

Backups of files created in the same second had the same name.
---
 soil/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/utils.py b/soil/utils.py
index 3a00a9b..4b37f70 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -60,6 +60,10 @@ def try_backup(path, remove=False):
     if not os.path.exists(backup_dir):
         os.makedirs(backup_dir)
     newpath = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    copies = 0
+    while os.path.exists(newpath):
+        copies += 1
+        newpath = os.path.join(backup_dir, "{}@{}_{}".format(os.path.basename(path), stamp, copies))
     if remove:
         move(path, newpath)
     else:
-- 
2.43.0


From e35917b25b166bcfc2096e890eb5b56ed65c3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 38/85] fix: the --output option was ignored

---
 soil/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index a4ce59d..10faaa6 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -180,8 +180,7 @@ def main(
         sys.path.append(os.getcwd())
     if args.module:
         importlib.import_module(args.module)
-    if output is None:
-        output = args.output
+    output = args.output
 
     debug = debug or args.debug
 
-- 
2.43.0


From 47f6df4bf3bbbb8cd45ec2fba2d62bae516b3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 39/85] fix: the CLI does not remove the limits of the
 simulation

`max_time` and `max_steps` were replaced with None unless they were given as
options, so simulations never finished.
---
 soil/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 10faaa6..c13d51a 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -248,9 +248,12 @@ def main(
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            max_time = float(args.max_time) if args.max_time != "-1" else None
-            max_steps = float(args.max_steps) if args.max_steps != "-1" else None
-            res.append(sim.run(max_time=max_time, max_steps=max_steps))
+            limits = {}
+            if args.max_time != "-1":
+                limits["max_time"] = float(args.max_time)
+            if args.max_steps != "-1":
+                limits["max_steps"] = float(args.max_steps)
+            res.append(sim.run(**limits))
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From 1ddc6fd4d08f786b675ad27bf15dab07081b1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 40/85] fix: keep the type of values in lists when dumping a
 configuration

Every value in a list (e.g., the values in a matrix) was converted to a string
or to a dictionary.
---
 soil/serialization.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6b70554..a272c28 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -197,18 +197,12 @@ def serialize(v, known_modules=KNOWN_MODULES):
 
 
 def serialize_dict(d, known_modules=KNOWN_MODULES):
-    try:
-        d = dict(d)
-    except (ValueError, TypeError) as ex:
-        return serialize(d)[0]
-    for (k, v) in reversed(list(d.items())):
-        if isinstance(v, dict):
-            d[k] = serialize_dict(v, known_modules=known_modules)
-        elif isinstance(v, list):
-            for ix in range(len(v)):
-                v[ix] = serialize_dict(v[ix], known_modules=known_modules)
-        elif isinstance(v, type):
-            d[k] = serialize(v, known_modules=known_modules)[1]
+    if isinstance(d, dict):
+        return {k: serialize_dict(v, known_modules=known_modules) for (k, v) in d.items()}
+    if isinstance(d, list):
+        return [serialize_dict(v, known_modules=known_modules) for v in d]
+    if isinstance(d, type):
+        return serialize(d, known_modules=known_modules)[1]
     return d
 
 
-- 
2.43.0


From a02d870925389a23f20f3b4b5cc750f5c04b3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:14 +0000
Subject: [PATCH 41/85] fix: SISa agents are infected by their discontent
 neighbors

---
 soil/agents/SISaModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index b5dbbe3..9ccea6c 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -77,7 +77,7 @@ class SISaModel(Agent):
             return self.content
 
         # Infected
-        discontent_neighbors = self.count_neighbors(state_id=self.discontent)
+        discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.neutral_discontent_infected_prob):
             return self.discontent
         content_neighbors = self.count_neighbors(state_id=self.content.id)
-- 
2.43.0


From 8314297e5dee58c6f741bc141a0d7018b2715e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:14 +0000
Subject: [PATCH 42/85] fix: SISa agents use the content_neutral parameter

---
 soil/agents/SISaModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index 9ccea6c..e8afaf4 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -64,7 +64,7 @@ class SISaModel(Agent):
             self.model.content_discontent, self.model.variance_c_d
         )
         self.content_neutral = random.normal(
-            self.model.discontent_neutral, self.model.standard_variance
+            self.model.content_neutral, self.model.standard_variance
         )
 
     @default_state
-- 
2.43.0


From 255f4132ad6a4483748a5f708d2f1802666ee41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:14 +0000
Subject: [PATCH 43/85] fix: content SISa agents may become discontent

---
 soil/agents/SISaModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index e8afaf4..f6cf475 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -106,5 +106,5 @@ class SISaModel(Agent):
         # Superinfected
         discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.content_discontent):
-            self.discontent
+            return self.discontent
         return self.content
-- 
2.43.0


From 1d3a551124a0c5335528e2d547a0ea39acd03d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:14 +0000
Subject: [PATCH 44/85] fix: nodes with an agent_id are assigned to that agent

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 370a229..9095fd0 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -368,7 +368,7 @@ class NetworkEnvironment(BaseEnvironment):
         """
         for (id, data) in self.G.nodes(data=True):
             if "agent_id" in data:
-                agent = self.get_agents(data["agent_id"])
+                agent = self.agent(data["agent_id"])
                 self.G.nodes[id]["agent"] = agent
                 assert not getattr(agent, "node_id", None) or agent.node_id == id
                 agent.node_id = id
-- 
2.43.0


From 4e2343bf18d33a190034a6d38808ccb9688026f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 45/85] fix: TimedActivation refuses to schedule agents at time
 zero once it is in the past

---
 soil/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index 120fc4d..e1510fb 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -145,7 +145,7 @@ class TimedActivation(DiscreteActivation):
         self._schedule(agent, when)
 
     def _schedule(self, agent, when=None, replace=False):
-        when = when or self.time
+        when = self.time if when is None else when
         self._check_future(agent, when)
         pos = len(self._queue)
         for (ix, l) in enumerate(self._queue):
-- 
2.43.0


From 2c374848d6ed2bb2940ad40a16e7167542bf57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:13 +0000
Subject: [PATCH 46/85] fix: FSM classes inherit the default state of their
 base class

---
 soil/agents/fsm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 6aab3d8..07d7ff3 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -83,10 +83,9 @@ class MetaFSM(MetaAgent):
         default_state = None
         for i in bases:
             if isinstance(i, MetaFSM):
-                for state_id, state in i._states.items():
-                    if state.default:
-                        default_state = state
-                    states[state_id] = state
+                if i._state is not None:
+                    default_state = i._state
+                states.update(i._states)
 
         # Add new states
         for attr, func in namespace.items():
-- 
2.43.0


From c039f692448f6aa0f12251bff0853e5a0ed3c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 47/85] fix: environments do not share their network nor modify
 the given topology

The agents of an iteration were assigned to the nodes of the very graph given
as a parameter, so the next iteration found its nodes already assigned.
---
 soil/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index 6fac221..3fb1e36 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -14,7 +14,8 @@ def from_topology(topology, dir_path: str = None):
     if topology is None:
         return nx.Graph()
     if isinstance(topology, nx.Graph):
-        return topology
+        # The network of the environment will be modified (e.g., to assign agents to nodes)
+        return topology.copy()
 
     # If it's a dict, assume it's a node-link graph
     if isinstance(topology, dict):
-- 
2.43.0


From 7a3f9e2cdbff30a64e29012ad9c5cf0c42dafc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 48/85] fix: agents do not take the nodes reserved by
 populate_network

An agent created in the init method of another one, while the network was being
populated, took a node that was later assigned to another agent.
---
 soil/agents/network_agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index a3d3b1e..f1460d1 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -10,7 +10,8 @@ class NetworkAgent(BaseAgent):
         if node_id is None:
             nodes = self.random.sample(list(self.G.nodes), k=len(self.G))
             for n_id in nodes:
-                if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
+                # Nodes that are going to be populated have been reserved (agent is None)
+                if "agent" not in self.G.nodes[n_id]:
                     node_id = n_id
                     break
             else:
-- 
2.43.0


From a65816a08f5cceed764c8ba831906842a3b85131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 49/85] fix: agents never get the id that was given explicitly
 to another agent

---
 soil/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/environment.py b/soil/environment.py
index 9095fd0..e6bd91b 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -153,6 +153,9 @@ class BaseEnvironment(Model):
     def add_agent(self, agent_class, unique_id=None, **agent):
         if unique_id is None:
             unique_id = self.next_id()
+        elif isinstance(unique_id, int):
+            # Do not give this id to another agent later on
+            self.current_id = max(self.current_id, unique_id)
 
         agent["unique_id"] = unique_id
 
-- 
2.43.0


From a77ba42eea52bda27223bbf638258224588339b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:23 +0000
Subject: [PATCH 50/85] fix: report the result of the methods marked with
 @report

The data collected was the method itself.
---
 soil/environment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index e6bd91b..dd02543 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -58,9 +58,11 @@ class BaseEnvironment(Model):
         for k in dir(cls):
             v = getattr(cls, k)
             if isinstance(v, property):
-                v = v.fget
+                v, reporter = v.fget, k
+            else:
+                reporter = v
             if getattr(v, "add_to_report", False):
-                self.add_model_reporter(k, k)
+                self.add_model_reporter(k, reporter)
 
         return self
 
-- 
2.43.0


From 76d0c92d488d336839087da8ea6b104b6647d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 51/85] fix: the graphdrawing exporter writes its image only
 when dumping results

---
 soil/exporters.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 710b2a3..e4fd8be 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -214,18 +214,23 @@ class dummy(Exporter):
 
 class graphdrawing(Exporter):
     def iteration_end(self, env, *args, **kwargs):
+        if not self.dump:
+            logger.info("Not drawing the graph (NO_DUMP mode)")
+            return
+
         import matplotlib.pyplot as plt
         # Outside effects
-        f = plt.figure()
+        fig = plt.figure()
         nx.draw(
             env.G,
             node_size=10,
             width=0.2,
             pos=nx.spring_layout(env.G, scale=100),
-            ax=f.add_subplot(111),
+            ax=fig.add_subplot(111),
         )
-        with open("graph-{}.png".format(env.id)) as f:
-            f.savefig(f)
+        with self.output("graph-{}.png".format(env.id), mode="wb") as f:
+            fig.savefig(f)
+        plt.close(fig)
 
 
 class summary(Exporter):
-- 
2.43.0


From bd7cde705a381d15abbc01a07d889683bf672487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:07 +0000
Subject: [PATCH 52/85] fix: summarize results of different types

---
 soil/exporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index e4fd8be..817feb9 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -245,7 +245,7 @@ class summary(Exporter):
             description = indent(str(df.describe()), tabs)
             last_line = indent(str(df.iloc[-1:]), tabs)
             # value_counts = indent(str(df.value_counts()), tabs)
-            value_counts = indent(str(df.apply(lambda x: x.value_counts()).T.stack()), tabs)
+            value_counts = indent(str(pd.concat({k: df[k].value_counts() for k in df.columns})), tabs)
 
             msg += dedent("""
             Dataframe {t}:
-- 
2.43.0


From 2bf781c8f880a987e8e19644c4865aedb5df1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:07 +0000
Subject: [PATCH 53/85] fix: read_sql returns the values as they were stored

---
 soil/analysis.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index 92f82df..eab581e 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -30,6 +30,23 @@ def plot(env, agent_df=None, model_df=None, steps=False, ignore=["agent_count",
 Results = namedtuple("Results", ["config", "parameters", "env", "agents"])
 #TODO implement reading from CSV
 
+def _read_table(table, con, index_col):
+    """
+    Read the values in a table as they were stored.
+
+    The type of each column depends on the first results that were stored, so it may not be right for the rest
+    (e.g., integers followed by floats).
+    """
+    columns = {c["name"]: c["type"] for c in sqlalchemy.inspect(con).get_columns(table)} if sqlalchemy.inspect(con).has_table(table) else {}
+    if not columns:
+        raise ValueError(f"Table {table} not found")
+    df = pd.read_sql_query(f'SELECT * FROM "{table}"', con=con, index_col=index_col)
+    for (name, type_) in columns.items():
+        if name in df.columns and isinstance(type_, sqlalchemy.Boolean) and df[name].isin([0, 1]).all():
+            df[name] = df[name].astype(bool)
+    return df
+
+
 def read_sql(fpath=None, name=None, include_agents=False):
     if not (fpath is None) ^ (name is None):
         raise ValueError("Specify either a path or a simulation name")
@@ -41,18 +58,18 @@ def read_sql(fpath=None, name=None, include_agents=False):
         fpath = f"sqlite:///{fpath}"
     engine = sqlalchemy.create_engine(fpath)
     with engine.connect() as conn:
-        env = pd.read_sql_table("env", con=conn,
-                                index_col="step").reset_index().set_index([
+        env = _read_table("env", con=conn,
+                          index_col="step").reset_index().set_index([
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
         try:
-            agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+            agents = _read_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
         except ValueError:  # There were no agent reporters
             agents = pd.DataFrame()
-        config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
+        config = _read_table("configuration", con=conn, index_col="simulation_id")
         try:
-            parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
+            parameters = _read_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         except (KeyError, ValueError):  # There were no parameters
             parameters = pd.DataFrame(columns=["key", "value"])
         try:
-- 
2.43.0


From 06a133fbf849d90a055e6a9e1148cca90687afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:00 +0000
Subject: [PATCH 54/85] fix: store parameters in a database with results that
 had none

---
 soil/exporters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 817feb9..4d31914 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -155,7 +155,8 @@ class SQLite(Exporter):
                            "params_id": params_id,
                            "iteration_id": env.id,
                            "key": k,
-                           "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=self.engine, if_exists="append")
+                           "value": serialize(v)[0]} for (k,v) in params.items()],
+                         columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=self.engine, if_exists="append")
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
                 df.to_sql(t, con=self.engine, if_exists="append")
-- 
2.43.0


From 3ddce0dec4964b0895a1a3d29c3f46471f01c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:00 +0000
Subject: [PATCH 55/85] fix: store results with different reporters in the same
 database

---
 soil/exporters.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index 4d31914..17598a7 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -159,8 +159,22 @@ class SQLite(Exporter):
                          columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=self.engine, if_exists="append")
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
+                self._add_columns(t, df.columns)
                 df.to_sql(t, con=self.engine, if_exists="append")
 
+    def _add_columns(self, table, columns):
+        """Previous results may not include the same reporters"""
+        from sqlalchemy import inspect, text
+
+        inspector = inspect(self.engine)
+        if not inspector.has_table(table):
+            return
+        existing = set(c["name"] for c in inspector.get_columns(table))
+        with self.engine.begin() as conn:
+            for column in columns:
+                if column not in existing:
+                    conn.execute(text(f'ALTER TABLE "{table}" ADD COLUMN "{column}"'))
+
 class csv(Exporter):
     """Export the state of each environment (and its agents) a CSV file for the simulation"""
 
-- 
2.43.0


From 5a2a5275a3da9e841e97068c7825afedc4d77f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:03 +0000
Subject: [PATCH 56/85] fix: simulations with several names in a file are
 loaded only once

---
 soil/simulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index b74e9c9..94b3e1a 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -336,7 +336,9 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
         sys.modules[module_name] = module
         spec.loader.exec_module(module)
         for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
-            sims.append(sim)
+            # The same object may have several names
+            if not any(sim is other for other in sims):
+                sims.append(sim)
         for sim in _iter_queued():
             sims.append(sim)
         if not sims:
@@ -344,7 +346,8 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
                                                    lambda x: inspect.isclass(x) and
                                                    issubclass(x, environment.Environment) and
                                                    (getattr(x, "__module__", None) != environment.__name__)):
-                sims.append(Simulation(model=env, **kwargs))
+                if not any(sim.model is env for sim in sims):
+                    sims.append(Simulation(model=env, **kwargs))
         del sys.modules[module_name]
     assert not _AVOID_RUNNING
     if not sims:
-- 
2.43.0


From fe6f4f6ff37b8845bcf02c6bc281270c84e29062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:26 +0000
Subject: [PATCH 57/85] fix: names are not looked up in the modules of other
 simulations

---
 soil/serialization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index a272c28..d9cd752 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -156,9 +156,11 @@ def with_source(file=None):
 
 def get_module(modname):
     """Get a module from the list of known modules"""
-    if modname not in KNOWN_MODULES or KNOWN_MODULES[modname] is None:
-        module = importlib.import_module(modname)
-        KNOWN_MODULES[modname] = module
+    if modname not in KNOWN_MODULES:
+        # Do not look for other names in modules that were only needed once
+        return importlib.import_module(modname)
+    if KNOWN_MODULES[modname] is None:
+        KNOWN_MODULES[modname] = importlib.import_module(modname)
     return KNOWN_MODULES[modname]
 
 
-- 
2.43.0


From 2fb04de498532aaab06c4d9b2b23b2ab3ff4be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:26 +0000
Subject: [PATCH 58/85] fix: configurations given as dictionaries are relative
 to the current directory

---
 soil/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index d9cd752..e2a0325 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -98,7 +98,8 @@ def load_files(*patterns, **kwargs):
 
 def load_config(cfg):
     if isinstance(cfg, dict):
-        yield config.load_config(cfg), os.getcwd()
+        # The path of a (missing) file in the current directory
+        yield config.load_config(cfg), os.path.join(os.getcwd(), "")
     else:
         yield from load_files(cfg)
 
-- 
2.43.0


From 5d947178e70aa4142e1186ea148a61ba9b761d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:51 +0000
Subject: [PATCH 59/85] fix: the name of a class is not that of a different
 class in soil or a builtin

---
 soil/serialization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index e2a0325..8816176 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -172,17 +172,19 @@ def name(value, known_modules=KNOWN_MODULES):
     if not isinstance(value, type):  # Get the class name first
         value = type(value)
     tname = value.__name__
-    if hasattr(builtins(), tname):
+    # Unqualified names may also be the name of a different class
+    if getattr(builtins(), tname, None) is value:
         return tname
     modname = value.__module__
     if modname == "__main__":
         return tname
-    if known_modules and modname in known_modules:
-        return tname
-    for kmod in known_modules:
-        module = get_module(kmod)
-        if hasattr(module, tname):
-            return tname
+    if not hasattr(builtins(), tname):
+        for kmod in known_modules:
+            module = get_module(kmod)
+            if hasattr(module, tname):
+                if getattr(module, tname) is value:
+                    return tname
+                break
     return "{}.{}".format(modname, tname)
 
 
-- 
2.43.0


From 84599daae8c842705c7b3c6f93b512445be383e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:51 +0000
Subject: [PATCH 60/85] fix: expanding a template does not modify its
 configuration

---
 soil/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 8816176..52d4653 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -65,7 +65,7 @@ def expand_template(config):
 
 
 def params_for_template(config):
-    sampler_config = config.get("sampler", {"N": 100})
+    sampler_config = dict(config.get("sampler", {"N": 100}))
     sampler = sampler_config.pop("method", "SALib.sample.morris.sample")
     sampler = deserializer(sampler)
     bounds = config["vars"]["bounds"]
-- 
2.43.0


From 0876786ed8175e484e141cad2b1c3379e9f082cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:33 +0000
Subject: [PATCH 61/85] fix: nodes without an agent yet do not count as network
 agents

---
 soil/environment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index dd02543..126b680 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -337,10 +337,10 @@ class NetworkEnvironment(BaseEnvironment):
     def network_agents(self):
         """Return agents still alive and assigned to a node in the network."""
         for (id, data) in self.G.nodes(data=True):
-            if "agent" in data:
-                agent = data["agent"]
-                if getattr(agent, "alive", True):
-                    yield agent
+            agent = data.get("agent")
+            # Nodes may be reserved for an agent that has not been created yet
+            if agent is not None and getattr(agent, "alive", True):
+                yield agent
 
     def add_node(self, agent_class, unique_id=None, node_id=None, **kwargs):
         if unique_id is None:
-- 
2.43.0


From 72afc2b739d5b51c47e9808e61efaeb5e0333e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:33 +0000
Subject: [PATCH 62/85] fix: errors of the agents do not cause them to be
 created again

---
 soil/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 126b680..5df08d5 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -299,7 +299,9 @@ class NetworkEnvironment(BaseEnvironment):
             return super().add_agent(agent_class, *args, **kwargs)
         try:
             a = super().add_agent(agent_class, *args, node_id=node_id, **kwargs)
-        except TypeError:
+        except TypeError as ex:
+            if "unexpected keyword argument 'node_id'" not in str(ex):
+                raise
             self.logger.warning(f"Agent constructor for {agent_class} does not have a node_id attribute. Might be a bug.")
             a = super().add_agent(agent_class, *args, **kwargs)
         self.G.nodes[node_id]["agent"] = a
-- 
2.43.0


From 909d2e29ceaff612294510c8c9a6af854d18291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:34 +0000
Subject: [PATCH 63/85] fix: errors of a network generator do not cause it to
 be called again

---
 soil/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 5df08d5..b874513 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -324,7 +324,9 @@ class NetworkEnvironment(BaseEnvironment):
                                            **network_params)
             try:
                 topology = network.from_params(**params)
-            except TypeError:
+            except TypeError as ex:
+                if "unexpected keyword argument 'seed'" not in str(ex):
+                    raise
                 del params["seed"]
                 topology = network.from_params(**params)
         else:
-- 
2.43.0


From 2c25a720a3fb08242780d9aa3d3dd1bf7f0264a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:34 +0000
Subject: [PATCH 64/85] fix: errors while writing the output of an exporter are
 those of the exporter

---
 soil/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/soil/utils.py b/soil/utils.py
index 4b37f70..6134897 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -7,7 +7,7 @@ from functools import partial
 from shutil import copyfile, move
 from multiprocessing import Pool, cpu_count
 
-from contextlib import contextmanager
+from contextlib import contextmanager, nullcontext
 
 logger = logging.getLogger("soil")
 logger.setLevel(logging.WARNING)
@@ -83,9 +83,11 @@ def safe_open(path, mode="r", backup=True, **kwargs):
 @contextmanager
 def open_or_reuse(f, *args, **kwargs):
     try:
-        with safe_open(f, *args, **kwargs) as f:
-            yield f
-    except (AttributeError, TypeError) as ex:
+        opened = safe_open(f, *args, **kwargs)
+    except (AttributeError, TypeError):
+        # Not a path, but a file that is already open
+        opened = nullcontext(f)
+    with opened as f:
         yield f
 
 
-- 
2.43.0


From c938778ebcd700cd93cb3880d4b3a62ea450cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:44 +0000
Subject: [PATCH 65/85] fix: any value can be reported when the level is DEBUG

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index b874513..7e3c7c8 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -204,7 +204,7 @@ class BaseEnvironment(Model):
             msg = "Model data:\n"
             max_width = max(len(k) for k in self.datacollector.model_vars.keys())
             for (k, v) in self.datacollector.model_vars.items():
-                msg += f"\t{k:<{max_width}}: {v[-1]:>6}\n"
+                msg += f"\t{k:<{max_width}}: {str(v[-1]):>6}\n"
             self.logger.debug(f"--- Steps: {self.schedule.steps:^5} - Time: {self.now:^5} --- " + msg)
 
     def add_model_reporter(self, name, func=None):
-- 
2.43.0


From 6aceb78b81a8c14f932848fcc6d100e77d434fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:44 +0000
Subject: [PATCH 66/85] fix: additional values in the log of the environment

---
 soil/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 7e3c7c8..00e39ef 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -185,8 +185,8 @@ class BaseEnvironment(Model):
             return
         message = message + " ".join(str(i) for i in args)
         message = " @{:>3}: {}".format(self.now, message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += f" {k}={v} "
         extra = {}
         extra["now"] = self.now
         extra["id"] = self.id
-- 
2.43.0


From 7d05954390e712c277ca1f40f4386606bddab0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:44 +0000
Subject: [PATCH 67/85] fix: additional values in the log of the agents

---
 soil/agents/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index ffb338a..ae27d3d 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -255,8 +255,8 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
             return
         message = " ".join(str(i) for i in message)
         message = "[@{:>4}]\t{:>10}: {}".format(self.now, repr(self), message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += f" {k}={v} "
         extra = {}
         extra["now"] = self.now
         extra["unique_id"] = self.unique_id
-- 
2.43.0


From c601267ffd360c7f728b751010113f846166aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:44 +0000
Subject: [PATCH 68/85] fix: values() and popitem() of agents

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index ae27d3d..f29920b 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -202,7 +202,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return sum(1 for n in self.keys())
 
     def __iter__(self):
-        return self.items()
+        return iter(self.keys())
 
     def keys(self):
         return (k for k in self.__dict__ if k[0] != "_" and k not in IGNORED_FIELDS)
-- 
2.43.0


From 83f515cee2cd633f0882e853da5ef32828a6233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:44 +0000
Subject: [PATCH 69/85] fix: to_str does not include the keys to skip

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index f29920b..96f97f4 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -283,7 +283,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return self.to_str()
 
     def to_str(self, keys=None, skip=None, pretty=False):
-        content = dict(self.items(keys=keys))
+        content = dict(self.items(keys=keys, skip=skip))
         if pretty and content:
             d = content
             content = "\n"
-- 
2.43.0


From a837d68a216ee0f49c41dabef1a1c3b9db34b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 70/85] fix: values() and items() of a view of agents

---
 soil/agents/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 96f97f4..c738421 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -408,6 +408,12 @@ class AgentView(Mapping, Set):
     def keys(self):
         return [agent.unique_id for agent in self._agents]
 
+    def values(self):
+        return list(self._agents)
+
+    def items(self):
+        return [(agent.unique_id, agent) for agent in self._agents]
+
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-- 
2.43.0


From 2fa88028da783685288c3fccd34e0439efd50383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:03 +0000
Subject: [PATCH 71/85] fix: main does not modify the list of exporters

---
 soil/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index c13d51a..0800e3f 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -165,9 +165,9 @@ def main(
     if args.version:
         return
 
-    exporters = exporters or [
+    exporters = list(exporters or [
         "default",
-    ]
+    ])
     for exp in args.exporter:
         if exp not in exporters:
             exporters.append(exp)
-- 
2.43.0


From 6bd50abe59af536939d5637491cee24070732aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:03 +0000
Subject: [PATCH 72/85] fix: results are exported once with --csv and
 --exporter csv

---
 soil/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 0800e3f..565a8e8 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -171,9 +171,9 @@ def main(
     for exp in args.exporter:
         if exp not in exporters:
             exporters.append(exp)
-    if args.csv:
+    if args.csv and "csv" not in exporters:
         exporters.append("csv")
-    if args.graph:
+    if args.graph and "gexf" not in exporters:
         exporters.append("gexf")
 
     if os.getcwd() not in sys.path:
-- 
2.43.0


From 1163e1ed3d60eebe24aabe2429ff3e3a822f08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:08 +0000
Subject: [PATCH 73/85] fix: waiting for messages with a deadline of zero
 waited for the default timeout

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 9f03d60..b11c19d 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -17,7 +17,7 @@ class EventedAgent(BaseAgent):
 
     @coroutine
     def received(self, expiration=None, timeout=60, delay=1, process=True):
-        if not expiration:
+        if expiration is None:
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-- 
2.43.0


From b17839e5a210eec5e01b9bf0d122dafa292fe9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:44 +0000
Subject: [PATCH 74/85] fix: ids that are not a state and look like a number
 were taken as a delay

---
 soil/agents/fsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 07d7ff3..2fcd000 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -151,6 +151,8 @@ class FSM(BaseAgent, metaclass=MetaFSM):
                 self._set_state(next_state)
                 return None
             except ValueError:
+                if isinstance(next_state, str):
+                    raise
                 return next_state
 
         next_state, when = next_state
-- 
2.43.0


From aaa9a431577600cf12a0289d03b9b8256e980f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:40 +0000
Subject: [PATCH 75/85] fix: a generator or async agent whose step failed did
 nothing the next time it was activated

---
 soil/agents/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index c738421..ad4b67e 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -40,6 +40,10 @@ def decorate_generator_step(func, name):
             except StopIteration as ex:
                 self._coroutine = None
                 val = ex.value
+            except BaseException:
+                # Its code has ended, so it should start again
+                self._coroutine = None
+                raise
             finally:
                 self._last_return = None
                 self._last_except = None
-- 
2.43.0


From 129c3aab7f5ba0edb277d3b0fa2faf238640a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:32 +0000
Subject: [PATCH 76/85] fix: reporters whose name has quotes or colons could
 not be added to a previous database

---
 soil/exporters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 17598a7..21b7d7a 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -164,16 +164,17 @@ class SQLite(Exporter):
 
     def _add_columns(self, table, columns):
         """Previous results may not include the same reporters"""
-        from sqlalchemy import inspect, text
+        from sqlalchemy import inspect
 
         inspector = inspect(self.engine)
         if not inspector.has_table(table):
             return
+        quote = self.engine.dialect.identifier_preparer.quote_identifier
         existing = set(c["name"] for c in inspector.get_columns(table))
         with self.engine.begin() as conn:
             for column in columns:
                 if column not in existing:
-                    conn.execute(text(f'ALTER TABLE "{table}" ADD COLUMN "{column}"'))
+                    conn.exec_driver_sql(f"ALTER TABLE {quote(table)} ADD COLUMN {quote(column)}")
 
 class csv(Exporter):
     """Export the state of each environment (and its agents) a CSV file for the simulation"""
-- 
2.43.0


From d747e2d505b434c31657831663ff8c55588275b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:19 +0000
Subject: [PATCH 77/85] fix: numbers were stored as text in columns that had
 texts before

---
 soil/exporters.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 21b7d7a..6e2f4d4 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -160,7 +160,23 @@ class SQLite(Exporter):
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
                 self._add_columns(t, df.columns)
-                df.to_sql(t, con=self.engine, if_exists="append")
+                df.to_sql(t, con=self.engine, if_exists="append", dtype=self._types(df))
+
+    def _types(self, df):
+        """Columns with texts may also have numbers (or have them in later results), which should not be converted"""
+        from sqlalchemy.types import UserDefinedType
+
+        class Untyped(UserDefinedType):
+            cache_ok = True
+
+            def get_col_spec(self, **kwargs):
+                return ""
+
+        return {
+            k: Untyped()
+            for (k, col) in df.items()
+            if col.dtype == object and pd.api.types.infer_dtype(col, skipna=True) != "boolean"
+        }
 
     def _add_columns(self, table, columns):
         """Previous results may not include the same reporters"""
-- 
2.43.0


From 888c3402d7618768db4964833612c2a6833eb44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:20 +0000
Subject: [PATCH 78/85] fix: show the results as text, not as the
 representation of bytes, when they are not dumped

---
 soil/exporters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 6e2f4d4..85d5063 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -24,7 +24,8 @@ class DryRunner(BytesIO):
 
     def write(self, txt):
         if self.__copy_to:
-            self.__copy_to.write("{}:::{}".format(self.__fname, txt))
+            shown = txt if isinstance(txt, str) else bytes(txt).decode(errors="replace")
+            self.__copy_to.write("{}:::{}".format(self.__fname, shown))
         try:
             super().write(txt)
         except TypeError:
-- 
2.43.0


From 899841f5b50a046ff542230873452c69398683a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:44 +0000
Subject: [PATCH 79/85] fix: agent records of a model without agents

agent_df failed (and the records had two made up rows) when no agent had been recorded yet
---
 soil/datacollection.py | 10 ++++++++++
 soil/environment.py    |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 68fdc9d..80d847f 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -1,3 +1,5 @@
+import pandas as pd
+
 from mesa import DataCollector as MDC
 
 
@@ -18,3 +20,11 @@ class SoilCollector(MDC):
                          agent_reporters=agent_reporters,
                          tables=tables,
                          **kwargs)
+
+    def get_agent_vars_dataframe(self):
+        df = super().get_agent_vars_dataframe()
+        if not any(self._agent_records.values()):
+            # Without records, pandas would take the names of the index as rows
+            index = pd.MultiIndex.from_arrays([[], []], names=["Step", "AgentID"])
+            df = pd.DataFrame(index=index, columns=list(self.agent_reporters))
+        return df
diff --git a/soil/environment.py b/soil/environment.py
index 00e39ef..9a1b11d 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -130,6 +130,9 @@ class BaseEnvironment(Model):
         if steps:
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
+        if df.empty:
+            df.index.rename(["time", "agent_id"], inplace=True)
+            return df
         times = self.datacollector.get_model_vars_dataframe().time
         df.index = df.index.map(lambda ix: (times[ix[0]], ix[1])).rename(["time", "agent_id"])
         return df
-- 
2.43.0


From 17c30314573c9dfb47da9048ec3fc8116932a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 80/85] fix: queries by state with plain mesa agents

Plain mesa agents have no get method, and an attribute of the environment is not the state of its agents
---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index ad4b67e..0f54428 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -486,7 +486,7 @@ def filter_agents(
             agent_class = tuple([agent_class])
 
     if state_id is not None:
-        f = filter(lambda agent: agent.get("state_id", None) in state_id, f)
+        f = filter(lambda agent: getattr(agent, "state_id", None) in state_id, f)
 
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
-- 
2.43.0


From aca2692b2569ad3cca4d537b5e682c2d5b1fdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 81/85] fix: subgraph of an agent when other agents have no
 node

---
 soil/agents/network_agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index f1460d1..250479a 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -66,7 +66,8 @@ class NetworkAgent(BaseAgent):
     def subgraph(self, center=True, **kwargs):
         include = [self] if center else []
         G = self.G.subgraph(
-            n.node_id for n in list(self.get_agents(**kwargs) + include)
+            # Not every agent has a node
+            n.node_id for n in list(self.get_agents(**kwargs) + include) if getattr(n, "node_id", None) is not None
         )
         return G
 
-- 
2.43.0


From 8d844ffd2da6a2b9c1eb5eac7abf0e3086041c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 82/85] fix: adding a node for a plain mesa agent

---
 soil/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 9a1b11d..36a6eaf 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -371,7 +371,8 @@ class NetworkEnvironment(BaseEnvironment):
             node_id=node_id,
             **kwargs,
         )
-        a["visible"] = True
+        # Plain mesa agents are not dictionaries
+        setattr(a, "visible", True)
         return a
 
     def _check_agent_nodes(self):
-- 
2.43.0


From 941f1aa9324df7d69d19f0846d0d2f2ac4a69281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:08 +0000
Subject: [PATCH 83/85] fix: nodes that name plain mesa agents

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 36a6eaf..5f15473 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -387,7 +387,7 @@ class NetworkEnvironment(BaseEnvironment):
                 agent.node_id = id
         for agent in self.get_agents():
             if hasattr(agent, "node_id"):
-                node_id = agent["node_id"]
+                node_id = agent.node_id
                 if node_id not in self.G.nodes:
                     raise ValueError(f"Agent {agent} is assigned to node {agent.node_id} which is not in the network")
                 node = self.G.nodes[node_id]
-- 
2.43.0


From 7cd6bb80a3b357ea71df49d1f52ad39fb6813a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:08 +0000
Subject: [PATCH 84/85] fix: databases of simulations whose name has a question
 mark

---
 soil/analysis.py  | 2 +-
 soil/exporters.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index eab581e..c2bb7d0 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -55,7 +55,7 @@ def read_sql(fpath=None, name=None, include_agents=False):
     fpath = os.path.abspath(fpath)
     # TODO: improve url parsing. This is a hacky way to check we weren't given a URL
     if "://" not in fpath:
-        fpath = f"sqlite:///{fpath}"
+        fpath = sqlalchemy.engine.URL.create("sqlite", database=fpath)
     engine = sqlalchemy.create_engine(fpath)
     with engine.connect() as conn:
         env = _read_table("env", con=conn,
diff --git a/soil/exporters.py b/soil/exporters.py
index 85d5063..5a68f8d 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -125,6 +125,7 @@ class SQLite(Exporter):
             return
 
         from sqlalchemy import create_engine
+        from sqlalchemy.engine import URL
 
         self.dbpath = os.path.join(self.outdir, f"{self.simulation.name}.sqlite")
         logger.info("Dumping results to %s", self.dbpath)
@@ -136,7 +137,7 @@ class SQLite(Exporter):
                 os.remove(self.dbpath)
         
         os.makedirs(self.outdir, exist_ok=True)
-        self.engine = create_engine(f"sqlite:///{self.dbpath}", echo=False)
+        self.engine = create_engine(URL.create("sqlite", database=self.dbpath), echo=False)
 
         sim_dict = {k: serialize(v)[0] for (k,v) in self.simulation.to_dict().items()}
         sim_dict["simulation_id"] = self.simulation.id
-- 
2.43.0


From 2386c08d2674d88da6a00e7b663cfac08cc61aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:08 +0000
Subject: [PATCH 85/85] fix: loading configuration files with special
 characters in their name

---
 soil/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 52d4653..8804959 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -90,7 +90,8 @@ def params_for_template(config):
 
 def load_files(*patterns, **kwargs):
     for pattern in patterns:
-        for i in glob(pattern, **kwargs, recursive=True):
+        # The name of a file may include special characters
+        for i in [pattern] if os.path.isfile(pattern) else glob(pattern, **kwargs, recursive=True):
             for cfg in load_file(i):
                 path = os.path.abspath(i)
                 yield cfg, path
-- 
2.43.0

