#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for (n, w) in mech])))


p("C01", "Agents are activated exactly at the times they ask for",
  """An agent that finishes an activation at time t asking for a delay d > 0 (as a number, a Delay, delay(), at(), or the delay that goes with
  a state) is next activated at exactly t + d; asking for nothing (None or 0) means the model's default interval, and an infinite delay means never again.
  A newly scheduled agent is first activated at the time requested, or at the current time if none is.
  Every such request produces exactly one activation, the agent sees the model's clock at that time, and this is so for every scheduler
  (timed or priority queue, shuffled or not) and every kind of agent (plain, generator, async, FSM, network, evented, plain mesa).""",
  ["schedules", "programs", "histories"], "every mix of agents, delays, schedulers and agents added during the run",
  "The tests follow a couple of agents with fixed delays in one scheduler; an activation that is lost, duplicated or moved needs particular coincidences of delays, or agents added in the middle of a step.",
  ["soil/time.py", "soil/agents/__init__.py", "soil/agents/fsm.py"],
  [("queue of pending activations", "soil/time.py: PQueueActivation, TimedActivation (add, _schedule, step)"), ("conversion of the result of a step into a delay", "soil/agents/__init__.py: decorate_*"), ("states with delays", "soil/agents/fsm.py: FSM.step, BoundState")])
p("C02", "The clock never goes back and always jumps to the earliest pending activation",
  """The model's clock never decreases, never moves past the pending activation of an agent, and after each step it is at the earliest pending activation
  (it may also stop at the time requested by an agent that has died or has been removed since). Every agent that is due when a step starts is activated (or dies) in that step, before the clock moves.
  The model stops running when no activation is pending and not before, and scheduling an agent in the past raises ValueError.""",
  ["schedules", "histories"], "every history of agents being scheduled, activated, added (in the present, the future or the past) and removed",
  "Tests look at the clock of tiny models after a few steps; skipping or repeating an instant depends on the content of the whole queue.",
  ["soil/time.py"], [("choice of the next time", "soil/time.py: PQueueActivation.step, TimedActivation.step"), ("running flag", "soil/time.py")])
p("C03", "Dead or removed agents never act again and are invisible",
  """Once an agent has died (by itself or killed by another one, before or after its turn in the same step) or has been removed from the schedule, it is never activated again.
  It is not returned by any query of agents or neighbors, nor found by its id, and receives no broadcasts. An agent that has died is no longer `alive` nor one of the network agents of the environment, calling its step method raises DeadAgent, every time, and dying again has no effect.""",
  ["schedules", "histories", "programs"], "every interleaving of deaths, removals and activations, for every kind of agent and scheduler",
  "The tests kill one agent in a fixed order; what matters is the position of the victim in the queue at that moment (already activated, still to be activated at the same instant, waiting, just added).",
  ["soil/time.py", "soil/agents/__init__.py", "soil/agents/fsm.py", "soil/agents/network_agents.py", "soil/environment.py"],
  [("die", "soil/agents/__init__.py: BaseAgent.die; soil/agents/network_agents.py; soil/agents/fsm.py"), ("check on activation", "soil/agents/__init__.py: _check_alive; soil/time.py: step"), ("queries", "soil/agents/__init__.py: filter_agents; soil/environment.py: network_agents")])
p("C04", "A run stops exactly at its limits",
  """A run of a simulation performs a step as long as the model is running, its clock is before max_time and the number of steps is below max_steps (each limit only if it is given), and not one step more or less.
  In particular, no agent is activated at or after max_time, a limit of zero performs no step, without limits the run ends when the model stops running, and limits given to run() replace those of the simulation.
  A model without agents is reported as an error instead of being run.""",
  ["inputs", "histories", "configurations"], "every combination of limits and of models that finish before, at or after them",
  "The tests use a few values of max_time with agents of a fixed interval; the boundary cases depend on clock jumps, fractional times and models that stop by themselves.",
  ["soil/simulation.py", "soil/environment.py"], [("is_done and the main loop", "soil/simulation.py: _run_model"), ("step", "soil/environment.py: BaseEnvironment.step")])
p("C05", "Generator and async agents resume exactly where they stopped",
  """An agent whose step (or FSM state) is a generator or a coroutine runs, in each activation, exactly the code between two consecutive suspension points, in order, with its local variables untouched.
  When its code ends (or fails), the next activation starts it again from the beginning (or from the beginning of the new state), and the value it returned is used like that of a plain function.
  Each agent has its own execution, independent of any other agent, even of the same class, however deep the suspension happens (yield from, nested awaits). Classes whose step mixes await and yield, or is not a function, are refused with ValueError.""",
  ["programs", "schedules"], "every program made of suspensions, nested calls, loops and returns, and every interleaving of several agents",
  "The tests run one or two hand-written coroutines; mixing up executions needs several agents of the same class interleaved, restarts, and nested suspensions.",
  ["soil/agents/__init__.py", "soil/agents/fsm.py", "soil/time.py"], [("_coroutine", "soil/agents/__init__.py: decorate_generator_step"), ("State.step", "soil/agents/fsm.py"), ("Delay.__await__", "soil/time.py")])
p("C06", "FSM agents make exactly the transitions their states ask for",
  """In each activation an FSM agent runs the function of its current state. If it returns a state (or its id) the agent is in that state from then on; if it returns None the state does not change, and in both cases the next activation comes after the default interval; a number or Delay keeps the state and delays the next activation,
  and a pair (state, delay), as given by state.delay() and state.at(), does both. An id that is not one of its states raises an error and leaves the agent in its state, and an agent that returns die() ends in the dead state.""",
  ["programs", "histories"], "every sequence of results (of every form) of the states of several agents, as functions, generators or coroutines",
  "Tests cover one fixed machine; the forms of the result interact with each other and with the ids of states.",
  ["soil/agents/fsm.py"], [("FSM.step, _set_state", "soil/agents/fsm.py"), ("BoundState.delay, at", "soil/agents/fsm.py")])
p("C07", "FSM classes inherit, redefine and start their states predictably",
  """The states of an FSM class are those of its base class plus its own (with `dead` always among them); a state defined again in a subclass replaces the inherited one everywhere, without any effect on the base class or other subclasses.
  Agents start in the state given by state_id, or else in the default state declared closest to their class; an unknown state_id, or having states and no default, raises ValueError. The state can be set by hand (set_state) only at time zero and only to one of its states; otherwise it raises ValueError and nothing changes.""",
  ["programs", "configurations"], "every chain of classes (single inheritance) that define, redefine and mark states as default",
  "Only one or two class hierarchies are tested.", ["soil/agents/fsm.py"],
  [("MetaFSM", "soil/agents/fsm.py: MetaFSM.__new__"), ("initial state", "soil/agents/fsm.py: FSM.__init__")])
p("C08", "Every message is delivered once, in order, unless it has expired",
  """A message sent to an agent (tell) or broadcast with a filter reaches the inbox of that agent, or of every agent in the schedule that matches the filter except its sender, and of nobody else.
  When an agent processes its messages, on_receive gets each pending message that has not expired exactly once, in the order they were sent, with its payload and sender, and never gets one whose expiration (or time to live since it was sent) is before the current time.
  Messages sent while others are being processed are not lost.""",
  ["schedules", "histories", "inputs"], "every history of messages, broadcasts, expirations, deaths and processing",
  "Tests send one or two messages; order, duplicates and expiration limits depend on the history of the inbox.",
  ["soil/agents/evented.py", "soil/environment.py", "soil/events.py"],
  [("inbox", "soil/agents/evented.py: tell, process_messages"), ("broadcast", "soil/environment.py: EventedEnvironment.broadcast"), ("Message.expired", "soil/events.py")])
p("C09", "Questions get their own answer, and waits respect their deadline",
  """An agent that asks a question resumes, at the first of its periodic checks (every `delay`) after the question was processed, with exactly what the other agent answered to that question (any value but None, even a false one); if no check before the deadline (expiration, or now + timeout) finds an answer, TimedOut is raised at the first check at or after the deadline, and never before.
  An agent that waits for messages gets all of the pending unexpired messages, in order, at the first check that finds some, or TimedOut in the same way; without a deadline a question waits for ever.""",
  ["schedules", "inputs"], "every combination of deadlines, polling intervals, answer times and concurrent questions",
  "Only the happy path and one timeout are tested.", ["soil/agents/evented.py", "soil/events.py"],
  [("ask", "soil/agents/evented.py: EventedAgent.ask"), ("received", "soil/agents/evented.py: EventedAgent.received")])
p("C10", "Nodes and network agents stay in one-to-one correspondence",
  """Every network agent in the schedule has a node of the network, different from those of the others, and that node refers back to it, after any sequence of creating agents (on a given free node, on any node, several at once, populating the network, adding nodes), deaths and changes to the network.
  An agent with no given node takes a free node if there is one and otherwise a new node is added for it; nodes, edges and assignments of other agents are never changed. An agent that dies takes its node away from the network and has no node any more, unless it is told to leave it.""",
  ["histories", "inputs"], "every history of creations, populations, deaths and new nodes, over networks with any kind of node ids",
  "Tests create one network and look at it once.", ["soil/environment.py", "soil/agents/network_agents.py", "soil/network.py"],
  [("assignment of nodes", "soil/agents/network_agents.py: NetworkAgent.__init__; soil/environment.py: add_agent, add_node, populate_network"), ("remove_node", "soil/agents/network_agents.py")])
p("C11", "Agent queries return exactly the agents that satisfy every filter",
  """A query (of the environment or of an agent) returns exactly the agents in the schedule that satisfy all of the filters given: ids, state ids, classes (with their subclasses), and attribute values (any of them, when a list is given); a limit truncates the result to that many of them, and no filters means all.
  Queries for neighbors return exactly those whose nodes are adjacent to the node of the agent (in a directed network, those that its edges lead to) and satisfy the filters. Counting, iterating, listing ids, values or items, looking up by id and membership agree with that result, and queries modify nothing.""",
  ["inputs", "histories"], "every population, network and combination of filters, at any point of the life of a model",
  "The tests try one filter at a time with one value.", ["soil/agents/__init__.py", "soil/agents/network_agents.py", "soil/environment.py"],
  [("filter_agents, AgentView", "soil/agents/__init__.py"), ("iter_agents, get_neighbors", "soil/agents/network_agents.py"), ("get_agents, agent, count_agents", "soil/environment.py")])
p("C12", "Creating agents yields exactly the number, classes and ids requested",
  """add_agents (and the agents given to the constructor of the environment) creates exactly k agents (one per node of the network if k is not given), and populate_network one for each node without an agent; every one of them belongs to one of the classes given, with a weight greater than zero, has the parameters given, and is in the schedule.
  Agents created without an id get ids that no other agent of the model has had before, and those created with an id keep it.""",
  ["inputs", "histories"], "every sequence of creations with any number of classes, weights, sizes and deaths in between",
  "Tests check the size of one population.", ["soil/environment.py"],
  [("add_agents, add_agent, populate_network", "soil/environment.py"), ("next_id", "soil/environment.py")])
p("C13", "Collected data records the true value of every reporter at every step",
  """The data of a model has one record for its initial state and one for each step, in order, with the value that every reporter (function, attribute, or property/method marked with @report) had at that moment, as well as the time and the number of agents.
  The agent data has, for each record, one row for each agent in the schedule at that moment with the value of each agent reporter, which is empty for agents that are not of the type the reporter is limited to; model_df and agent_df show these very values, under the time (or step) of their record. The tables given to the model have exactly the rows that have been added to them, in order.""",
  ["histories", "inputs"], "every model, set of reporters and history of changes, births and deaths",
  "Tests look at the columns or at the last value.", ["soil/environment.py", "soil/datacollection.py", "soil/decorators.py"],
  [("SoilCollector", "soil/datacollection.py"), ("model_df, agent_df, add_*_reporter, step", "soil/environment.py"), ("report", "soil/decorators.py")])
p("C14", "Results only depend on the seed, the parameters and the iteration",
  """The history of an iteration (order of activations, random numbers, network, population and collected data) is determined by the seed of the simulation, its parameters and the number of the iteration.
  It does not depend on what was run before in the process, on other iterations or parameter combinations of the same run, on the process, or on exporters. Different iterations, and different seeds, use different random sequences.""",
  ["histories", "configurations"], "every simulation, repeated in different positions, runs, orders and processes",
  "Tests run something twice in a row in the same process, at most.", ["soil/simulation.py", "soil/environment.py", "soil/time.py", "soil/agents/__init__.py", "soil/network.py"],
  [("seed of each iteration", "soil/simulation.py: _get_env"), ("model.random", "soil/environment.py, soil/time.py, soil/agents")])
p("C15", "A sweep runs every combination of parameters the requested number of times",
  """A simulation with a matrix runs each combination of the values of the matrix, together with the fixed parameters (which the matrix overrides), exactly `iterations` times, with iterations numbered from zero, and returns all the resulting models, each with exactly its own parameters and reporters.
  Each exporter is told once that the simulation starts, before anything else, then about each result with its own parameters and an identifier that is the same if and only if the parameters are the same, and finally once that it ends. The simulation, its parameters and its matrix are not changed by running it.""",
  ["configurations", "inputs"], "every matrix, set of parameters, number of iterations and exporters, run any number of times",
  "Tests count the results of one matrix.", ["soil/simulation.py", "soil/utils.py", "soil/exporters.py"],
  [("_collect_params, run, _run_iters_for_params", "soil/simulation.py"), ("run_parallel", "soil/utils.py")])
p("C16", "Exported results are exactly the collected data, and are never lost",
  """When results are dumped, the SQLite database contains exactly the data collected in every iteration of every combination (model data, agent data, the tables of the user, parameters and configuration), labelled with its simulation, parameters and iteration, and read_sql returns it (but for the tables of the user); CSV files contain the same data, GEXF files the same network, with its positions (for one combination of parameters), and YAML files the configuration.
  Running again without overwrite or backup keeps the previous results in the database and adds the new ones; overwrite leaves only the new ones; backup keeps every previous database, untouched, and every previous version of a GEXF or YAML file that is written again, in the backup folder.""",
  ["histories", "configurations"], "every history of runs with any combination of exporters and of overwrite/backup",
  "Tests check that the files exist, or one table.", ["soil/exporters.py", "soil/utils.py", "soil/analysis.py", "soil/network.py"],
  [("SQLite, csv, gexf, default", "soil/exporters.py"), ("try_backup, safe_open", "soil/utils.py"), ("read_sql", "soil/analysis.py")])
p("C17", "Dry runs and runs without dumping leave no trace",
  """With dry_run no model is created or run, and no result is returned. With dry_run, or without dump, no file or folder is created, modified or removed, whatever exporters are used and whether or not previous results, overwrite or backup exist; without dump, the results returned are the same as with it, and the tables that the csv exporter would have written are shown in the standard output, as text.""",
  ["configurations", "histories"], "every combination of flags, exporters and previous results",
  "Tests check one exporter.", ["soil/simulation.py", "soil/exporters.py"],
  [("dump=self.dump and not self.dry_run", "soil/simulation.py: run"), ("Exporter.output, DryRunner and checks in each exporter", "soil/exporters.py")])
p("C18", "Agents get their initial state from arguments, then the model, then defaults",
  """Each attribute that a class of agents declares (or inherits) starts with the value given when creating the agent, or else with that of the attribute of the model with the same name if it is not None, or else with the closest default; any other argument becomes an attribute too, and all of this is in place before init() is called.
  Defaults are not shared: changing the state of an agent never changes another agent nor its class. The state can be read and written as items or as attributes, alike.""",
  ["inputs", "programs", "histories"], "every class hierarchy, model, set of arguments and later changes",
  "Tests check one class.", ["soil/agents/__init__.py"],
  [("MetaAgent, BaseAgent.__init__", "soil/agents/__init__.py"), ("__getitem__ and company", "soil/agents/__init__.py")])
p("C19", "Loading a simulation file yields its simulations without running them",
  """Loading a Python file returns every simulation it defines as a variable and every combination of parameters that it runs, exactly once each, or, if there are none, one simulation for each environment class defined in it; a YAML or JSON file (or a pattern for several of them) returns a simulation for each of its documents. Nothing is run while loading (run_from_file runs each simulation after loading it), the options given when loading replace those of the file, and everything else is as written.
  Afterwards, even if loading failed, simulations run as usual, loading again gives the same result, and nothing of a previous file is returned.""",
  ["programs", "histories"], "every file content and history of loads (including failed ones) and runs",
  "Tests load the examples.", ["soil/simulation.py", "soil/serialization.py"],
  [("do_not_run, _QUEUED, iter_from_py", "soil/simulation.py"), ("iter_from_config, load_file", "soil/simulation.py, soil/serialization.py")])
p("C20", "A lockstep scheduler advances by fixed intervals without disturbing agents",
  """A Lockstepper advances its clock by exactly one interval in each step, and counts one step. In each step it activates exactly those agents whose activation is in that interval (including its beginning and not its end), as many times as they ask for, in order of time; agents see the actual time of their activation, and the times are the same as with the wrapped scheduler.""",
  ["schedules", "configurations"], "every interval, wrapped scheduler and set of agents",
  "There are no tests with a Lockstepper and agents.", ["soil/time.py"], [("Lockstepper.step", "soil/time.py")])
p("C21", "The command line honours every option it is given",
  """Running a file from the command line runs the simulations in it as they are written, except for the options given: --seed, --iterations, --max_time, --max_steps, --set, --output, --exporter/--csv/--graph, --no-dump, --dry-run, --module, --version. Each option has its documented effect, alone or combined with others, and those that are not given leave the limits, iterations, seed and parameters of the file as they are.
  Each result is exported once by each exporter, and the error of a simulation that fails is that of the call. --only-convert prints the configuration of each simulation without running it.""",
  ["configurations", "inputs"], "every combination of options and simulation files",
  "Tests call the CLI with one set of options.", ["soil/__init__.py", "soil/simulation.py"],
  [("main", "soil/__init__.py")])
p("C22", "Configurations survive being dumped and loaded, and templates expand fully",
  """A simulation dumped to YAML and loaded again is the same simulation: same name, model, parameters (with their values and types), matrix, limits, seed, iterations and flags, and gives the same results. Each basic value (finite numbers, texts, booleans, None, and any nesting of lists, tuples, sets and dictionaries of them) is recovered from its serialized text and type, and the name that a (importable) class is given always leads back to that class.
  A template expands to exactly one configuration for each combination of its lists with each sample of its bounds. Names that lead nowhere, and templates without variables, with a name or with several configurations, are refused with an error.""",
  ["inputs", "configurations"], "every simulation with parameters made of basic values, lists, dictionaries and classes; every template",
  "Tests convert one configuration.", ["soil/simulation.py", "soil/serialization.py"],
  [("to_dict, to_yaml, iter_from_config", "soil/simulation.py"), ("serialize, deserialize, expand_template, params_for_template", "soil/serialization.py")])
p("C23", "The SISa model follows its transition probabilities",
  """With probabilities of zero and one and no variance, each SISa agent moves from its state exactly as its parameters say: a neutral agent spontaneously becomes discontent (or else content), or else is infected by its discontent (or else content) neighbors; a discontent or content agent heals to neutral, or else is taken over by neighbors in the opposite state; otherwise it keeps its state.
  Each transition is governed by its own parameter and by the number of neighbors in the relevant state at that moment, and by nothing else.""",
  ["inputs", "schedules"], "every network, assignment of states, order of activation and 0/1 value of the parameters",
  "Tests do not run the model with known outcomes.", ["soil/agents/SISaModel.py", "soil/agents/network_agents.py"],
  [("neutral, discontent, content", "soil/agents/SISaModel.py"), ("count_neighbors", "soil/agents/network_agents.py")])
p("C24", "Ordered schedulers activate simultaneous agents in a fixed order",
  """With an ordered timed scheduler, agents that are due at the same time are activated in the order in which their activations were requested. With a priority queue that does not shuffle, they are activated in increasing order of id. Agents that die, are removed or are added in the meantime do not alter the order of the rest.""",
  ["schedules", "histories"], "every history of requests with any number of coincidences",
  "Tests compare one run with another one, with two or three agents.", ["soil/time.py"],
  [("buckets", "soil/time.py: TimedActivation._schedule, step"), ("heap keys", "soil/time.py: PQueueActivation._schedule, step")])
p("C25", "Networks are built exactly as described, and spatial search is exact",
  """The network of an environment has exactly the nodes, edges and attributes of the graph, node-link dictionary or file that describes it, or is the result of the generator with its parameters (and the seed of the model, if it takes one); populating it changes neither its nodes nor its edges, and edges added by agents connect their nodes.
  What describes no network is refused with an error. The subgraph of an agent is induced by the nodes of the agents that satisfy the filters (and its own, unless excluded), and a spatial search returns exactly the nodes of those within the radius.""",
  ["inputs", "configurations"], "every topology in every format, and every layout, radius and filter",
  "Tests load a couple of graphs.", ["soil/network.py", "soil/environment.py", "soil/agents/network_agents.py", "soil/agents/geo.py"],
  [("from_topology, from_params", "soil/network.py"), ("create_network", "soil/environment.py"), ("subgraph, add_edge", "soil/agents/network_agents.py"), ("geo_search", "soil/agents/geo.py")])

p("C26", "Errors reach the caller as they are raised, and leave nothing behind",
  """An exception raised by the code of an agent (any kind of step or state), model, reporter, exporter or network generator while a simulation runs reaches the caller of run() as it was raised, and at once: no other code of the user is activated, no other iteration is run and nothing is returned. (Except DeadAgent, which tells that an agent has died, and what has another meaning for Python: StopIteration in generators, and AttributeError in the reporters that are attributes, which is that they do not exist.)
  The results of the iterations that had finished remain stored, without those of the one that failed, and later runs of the same or other simulations are exactly as if it had not happened.""",
  ["crash points", "histories"], "every place where the code of the user runs, every call and every type of error, and any sequence of runs before and after it",
  "Tests check that two errors are raised.", ["soil/simulation.py", "soil/environment.py", "soil/exporters.py", "soil/serialization.py", "soil/time.py"],
  [("run, _run_iters_for_params, _run_model", "soil/simulation.py"), ("add_agent, create_network", "soil/environment.py"), ("output, iteration_end", "soil/exporters.py"), ("open_or_reuse, run_parallel", "soil/utils.py"), ("with_source", "soil/serialization.py")])
p("C27", "Agents and environments are dictionaries of their state",
  """What is set, changed or removed in an agent as an attribute or as an item is seen at once as both, in that agent and in no other one. Its keys, items, values and length are exactly those of its own attributes that do not start with an underscore (other than its model and its logger). Reading an item that does not exist is an error, and get gives the value in the agent, or else that of its environment, or else the default.
  The attributes of an environment are its items as well, and iterating over it gives its agents.""",
  ["histories", "inputs"], "every sequence of changes, in any form, to agents of any kind and environments",
  "Tests use items of agents in a few places.", ["soil/agents/__init__.py", "soil/environment.py"],
  [("__getitem__, __setitem__, __delitem__, __contains__, keys, items, get, to_str", "soil/agents/__init__.py: BaseAgent"), ("__getitem__, __setitem__, __iter__, get, keys", "soil/environment.py: BaseEnvironment")])
p("C28", "Logging does not alter simulations, and messages are logged as they are given",
  """The results of a simulation do not depend on the level of what is logged by soil, the simulation, its environment or its agents. Each message logged by an agent or environment (log, debug, info) appears exactly once if its level is enabled (for the agent or else its environment, simulation or soil), and does not appear otherwise. It has its level, its text and additional values, the current time, and the agent or environment that logs it.""",
  ["configurations", "inputs"], "every combination of levels, and every message",
  "Tests do not look at what is logged.", ["soil/agents/__init__.py", "soil/environment.py", "soil/simulation.py"],
  [("log, debug, info", "soil/agents/__init__.py: BaseAgent"), ("log, step", "soil/environment.py: BaseEnvironment"), ("level", "soil/simulation.py: Simulation.__post_init__")])
p("C29", "The built-in counters count activations, agents and neighbors",
  """In each activation, and only then, a Ticker counts one more time; a CounterModel counts one more time and has the number of agents in the simulation and of agents in the nodes linked to its own at that moment; and an AggregatedCounter adds those numbers to its previous totals. Agents that have died do not count, and those that have been added do.""",
  ["histories", "schedules"], "every history of activations, births, deaths and changes to the network",
  "Tests run a few steps in networks that do not change.", ["soil/agents/CounterModel.py", "soil/agents/network_agents.py"],
  [("step", "soil/agents/CounterModel.py")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
