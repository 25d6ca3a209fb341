"""writes /verif/properties.jsonl (the single source of the property list)"""
import json, os
F = ["salabim/salabim.py"]
P = []
def p(id, title, statement, over, qtext, why, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=F, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Events happen in order of time, priority and scheduling order",
  "Scheduled components become current in non-decreasing simulation time, each exactly at the time it was scheduled for; at equal time the one with the lower priority value goes first, and at equal time and priority the order is first scheduled first served, except that urgent ones precede all non-urgent ones, last scheduled first. The clock never moves backwards and never skips a pending event. A run that is given a till or duration ends exactly at that moment, after all other events of priority below infinity at that moment.",
  ["schedules", "histories", "programs"], "every multiset of pending events with every time, priority and urgency, inserted and removed in every order",
  "The tests schedule a handful of events in a few fixed orders; the ordering must hold for every interleaving of scheduling, rescheduling and cancelling.",
  [("event list push with (time, priority, signed sequence)", "Component._push"), ("removal from the event list", "Component._remove"), ("main event loop", "Environment.step"), ("run end", "Environment.run"), ("next event time", "Environment.peek")],
  [("_event_list", "heap of pending events", "Environment"), ("_seq", "scheduling order", "Environment"), ("_now", "clock", "Environment")],
  ["env.now() and the component that becomes current"])

p("C02", "Every process interaction leaves a component with one consistent plan",
  "After activating, holding, passivating, cancelling, interrupting, resuming or putting on standby a component from any status in which that is allowed, its status is the documented one, it has exactly one pending event when it is scheduled (at exactly the requested time, with the requested priority and urgency) and none when it is passive, a data component, interrupted or on standby. Reported scheduled time and remaining duration agree with that plan. Pending events, statuses and plans of all other components are unaffected.",
  ["histories", "programs", "inputs"], "every status of the component, every argument combination, every state of all other components",
  "There are 9 statuses times about 10 operations with optional time arguments; tests sample a few transitions and hardly ever look at bystanders.",
  [("activate/hold/passivate/cancel/standby", "class Component"), ("removal from the plan", "Component._remove"), ("scheduling", "Component._reschedule"), ("remaining_duration", "Component.remaining_duration")],
  [("status", "component status", "Component"), ("_scheduled_time", "time of the pending event", "Component"), ("_on_event_list", "has a pending event", "Component")],
  ["component.status(), scheduled_time(), remaining_duration()"])

p("C03", "A queue is one sequence and all its views agree on it",
  "At all times the length, forward and backward iteration, indexing and slicing, membership, index, count, head, tail, successor and predecessor of a queue, and the set of queues of each component, all describe one and the same sequence without duplicates. Entering a queue twice or leaving a queue one is not in raises an error and changes nothing. An operation on one queue never changes the content of another queue.",
  ["histories", "inputs"], "every history of enter/leave/priority/insert/pop/clear/extend/move/copy operations over any number of queues and components",
  "Link manipulation errors show only for particular positions (first, last, only element, neighbours) and particular histories.",
  [("link insertion", "Qmember.insert_in_front_of"), ("link removal", "Component.leave"), ("re-linking", "Component.priority"), ("traversals", "Queue.__iter__, __reversed__, __getitem__, index, Component.index")],
  [("successor/predecessor", "doubly linked list", "Qmember"), ("_qmembers", "memberships", "Component"), ("_length", "length", "Queue")],
  ["all public Queue accessors"])

p("C04", "Queues are ordered by priority, first come first served",
  "Whatever sequence of additions, removals and priority changes is performed, the components in a queue are in non-decreasing priority, and components that entered or were moved with equal priority are in order of that operation. Adding at head, in front of, behind, or at a given index puts the component at exactly that position (taking over the neighbour's priority) and leaves the relative order of all others unchanged. Changing a priority moves only that component.",
  ["histories", "inputs"], "every history of priority additions, positional additions, removals and priority changes",
  "Depends on the relative order of arbitrarily many priorities including ties and infinities; tests use a few fixed sequences.",
  [("position search", "Component.enter"), ("positional entry", "enter_at_head, enter_in_front_of, enter_behind, Queue.insert"), ("re-sorting", "Component.priority")],
  [("priority", "priority of the membership", "Qmember")], ["iteration order of the queue, component.priority(queue)"])

p("C05", "Queue capacity is never exceeded and queue counters are exact",
  "The number of components in a queue never exceeds its capacity at the moment of entry, and an attempt to enter a full queue raises an error and leaves queue, component and statistics as they were. At every moment the recorded length, available quantity, arrivals and departures agree with the content, and every departure records a length of stay equal to the time since that component entered.",
  ["histories", "inputs"], "every history of entering, leaving and capacity changes",
  "Counters drift only after particular sequences (failed entry, re-entry, capacity change while occupied).",
  [("capacity check and counters", "Qmember.insert_in_front_of"), ("counters on leave", "Component.leave"), ("capacity change", "Queue.set_capacity")],
  [("capacity, length, length_of_stay, available_quantity", "monitors", "Queue"), ("number_of_arrivals", "counter", "Queue")], ["queue monitors and counters"])

p("C06", "Resource claims are conserved and never exceed capacity",
  "At every moment the claimed quantity of a non-anonymous resource equals the sum of what its claimers hold, granting a request never makes the claimed quantity exceed the capacity, and a component is among the claimers exactly when it holds a positive quantity. All this holds for positive requested quantities. A request for several resources is granted completely or not at all (exactly one of them when only one is asked for), and what a component releases, cancels with or ends with is given back completely and exactly once. The reported claimed, available and occupancy values always agree with the actual ones.",
  ["histories", "schedules", "programs"], "every history of requests (single, multiple, oneof, partial quantities), releases, bumps, cancels, ends and capacity changes",
  "Leaks need particular combinations of multiple resources, partial release, failure, preemption and termination.",
  [("grant", "Component._tryrequest"), ("give back", "Component._release, Component.release, Resource.release, Component.cancel, Environment._terminate"), ("eligibility", "honor_all, honor_any")],
  [("_claimed_quantity", "total claimed", "Resource"), ("_claims", "claims per resource", "Component")], ["resource.claimed_quantity(), component.claimed_quantity(resource), claimers()"])

p("C07", "Requests are honored as soon as possible, in priority order",
  "Whenever a request is made, quantity is released, or capacity is raised, every waiting request on a (non-preemptive) resource that fits in what is available is honored at that same simulation time, scanned in order of request priority and then order of arrival; a request that does not fit stays waiting, unless it only may be honored when it is first in line or of the highest priority. No request without such a restriction is left waiting while it could be honored. A preemptive request takes quantity away from claimers with a worse priority, worst priority first, only if that makes the request fit.",
  ["histories", "schedules"], "every set of waiting requests and every release/capacity history",
  "Lost wake-ups need a particular mix of waiting quantities, priorities and shared resources.",
  [("retry loop", "Resource._tryrequest"), ("single attempt", "Component._tryrequest"), ("lowest waiting quantity shortcut", "Resource._minq"), ("preemption", "Component.request")],
  [("_requesters", "waiting requests in order", "Resource"), ("_minq", "lower bound of waiting quantities", "Resource")], ["resource.requesters(), claimers(), moment of becoming scheduled"])

p("C08", "A wait that fails or is broken off leaves no trace",
  "When a request, state wait or store action is not honored before its given fail moment, the component continues exactly at that moment, is marked as failed, holds nothing of what it asked for, and is no longer in any waiting line. The same holds when it is activated, held, passivated, cancelled or made to wait for something else while waiting (also marked failed, except for claims it already had). When honored, it is marked as not failed and never continues a second time at the original fail moment.",
  ["histories", "schedules"], "every combination of pending requests/waits/store actions, fail moments and interfering operations",
  "Needs the coincidence of waiting on several things with an expiring or interfering event.",
  [("cleanup", "Component._check_fail"), ("fail moment", "request, wait, wait_for, from_store, to_store"), ("expiry", "Environment.step")],
  [("_failed", "failed flag", "Component")], ["component.failed(), requesters/waiters queues"])

p("C09", "State changes wake exactly the waiters whose condition holds",
  "When a state gets a new value, every component waiting on that state whose complete condition (any or all of its terms) now holds becomes scheduled at that same time, in order of priority and then arrival, and no other waiting component is affected. A wait whose condition already holds does not wait. A trigger makes the value visible temporarily, releases at most the given maximum number of waiters, and leaves the given after-value.",
  ["histories", "inputs"], "every set of waiters with value, expression and function conditions over any states and every sequence of set/reset/trigger",
  "The combinations of any/all, several states and trigger limits are far beyond the samples in tests.",
  [("state change", "State.set, State.reset, State.trigger"), ("scan of waiters", "State._trywait"), ("condition evaluation", "Component._trywait")],
  [("_value", "state value", "State"), ("_waits", "terms", "Component")], ["state.waiters(), component status"])

p("C10", "Stores neither lose nor duplicate items and match requests immediately",
  "An item put in a store is, until it is taken, in exactly that store or handed to exactly one requester; a store never holds more than its capacity. Whenever an item that satisfies a waiting taker's condition is in the store, the first such taker in line gets it at once; whenever there is room, the first waiting giver's item is let in at once. A taker gets the first satisfying item (or the one with the lowest key) of the first store that has one, and leaves all other waiting lines.",
  ["histories", "schedules"], "every history of to_store, from_store (one or several stores, filters, keys), direct entry, removal, capacity changes",
  "Hand-off chains between givers and takers need particular store contents and waiting lines.",
  [("hand-off on entry", "Qmember.insert_in_front_of"), ("hand-off on leave", "Component.leave"), ("requests", "Component.from_store, Component.to_store"), ("rescan", "Store.rescan, Store._rescan_to")],
  [("_from_store_requesters/_to_store_requesters", "waiting lines", "Store")], ["store content, component.from_store_item()"])

p("C11", "Level monitor statistics are exact time-weighted statistics",
  "For a level monitor the value at any past moment is the last value tallied at or before that moment, and mean, standard deviation, minimum, maximum, duration and duration per value equal those of that step function over the monitored period up to now (parts in which monitoring was off or before a reset do not count). Reading statistics never changes them. Collecting statistics only gives the same mean, standard deviation, minimum, maximum and duration as full collection.",
  ["histories", "inputs"], "every sequence of tally, monitor on/off, reset and time advance",
  "Edge cases (several tallies at one moment, off periods, reset, reading in between, cached results) combine freely.",
  [("tally", "Monitor.tally, _tally_add_now, _tally_off"), ("switch", "Monitor.monitor, Monitor.reset"), ("series", "Monitor._xweight, xt, tx"), ("statistics", "mean, std, minimum, maximum, sys_weight")],
  [("_x,_t", "series", "Monitor"), ("cached_xweight", "cache", "Monitor")], ["monitor statistics"])

p("C12", "Monitor statistics equal the weighted statistics of the tallied values",
  "For a non-level monitor number of entries, total weight, mean, standard deviation, minimum, maximum, percentiles, and the counts per value or per bin equal the mathematical statistics, weighted with the given positive weights, of the values tallied since the last reset while monitoring was on, with or without zeros. Collecting statistics only gives the same number of entries, weight, mean, standard deviation, minimum and maximum as full collection. Bins and values partition the entries: counts add up to the total.",
  ["inputs", "histories"], "every finite sequence of values and weights, with every reset and on/off pattern",
  "Numerical identities over all inputs; tests check a few fixed sequences.",
  [("tally (running update)", "Monitor.tally"), ("statistics", "mean, std, minimum, maximum, percentile, bin_*, value_*, number_of_entries, weight")],
  [("mun,sn,sumw,n", "running statistics", "Monitor")], ["monitor statistics"])

p("C13", "Merged, sliced, scaled and copied monitors carry exactly the right data",
  "Merging monitors yields the union of all entries (for level monitors the sum, or given function, of the levels at each moment); slicing yields exactly the entries or the level history within the period; multiplying, mapping and time scaling transform every value (and keep every weight); a copy or frozen monitor equals the original at that moment and does not change afterwards. The source monitors are not changed.",
  ["inputs", "histories"], "every finite set of monitor histories and every slice/scale argument",
  "Interleavings of time stamps, off-periods and weights are unbounded.",
  [("merge", "Monitor.merge"), ("slice", "Monitor.slice"), ("scaling", "Monitor.multiply, x_map, t_multiply, to_*"), ("copy", "Monitor.copy, freeze")],
  [], ["statistics and series of the resulting monitor"])

p("C14", "Samples stay within the support and follow the specified mapping",
  "For every state of the random source, a sample of a bounded distribution lies within its stated bounds, a sample of an empirical or discrete distribution is one of the specified values with positive probability (or lies between adjacent specified points), and equals the inverse of the specified cumulative distribution at the drawn random number. The reported mean equals the mathematical mean of that specification. A bounded wrapper returns a value within its bounds, or its fail value after the given number of unsuccessful retries.",
  ["inputs", "configurations"], "every parameterisation and every random number in [0,1)",
  "Tests use one seed; the extreme random numbers and boundary parameters are never drawn.",
  [("sampling", "Uniform, IntUniform, Triangular, Constant, Cdf, Pdf, Pmf, CumPdf, CumPmf, Bounded sample methods"), ("mean", "their mean methods"), ("interpolation", "interpolate")],
  [], ["dist.sample(), dist.mean()"])

p("C15", "Time units and time shifts are applied consistently",
  "Converting a time or duration between units and back is the identity, and conversions are linear with the physical ratio of the units. After resetting the clock to another value, all user visible times (now, scheduled, creation and enter times, till and at arguments, query and slice times of monitors; not the raw time stamps of monitors, as documented) are expressed in the new scale while all durations, orders and statistics are unchanged.",
  ["inputs", "histories"], "every pair of units, every value, and every shift at every moment of a simulation",
  "Tests check some unit pairs; shifts in mid-simulation combine with all other features.",
  [("conversions", "Environment.to_time_unit, to_years..to_microseconds, years..microseconds"), ("shift", "Environment.reset_now"), ("time arguments", "hold, activate, run, request, wait, ComponentGenerator")],
  [("_offset", "shift", "Environment")], ["returned times"])

p("C16", "Interpolation and range helpers are mathematically exact",
  "Linear interpolation hits the end points, stays within them in between, is clamped outside, and is piecewise linear over a table; range helpers return exactly the specified equally spaced values; sorted search returns the insertion point.",
  ["inputs"], "every real argument and every sorted table",
  "Universally quantified over reals and table lengths; tests check a few points.",
  [("interpolate, interp, linspace, arange, searchsorted", "module level functions")], [], ["return values"])

p("C17", "Interrupting and resuming preserves the remaining time",
  "A scheduled component that is interrupted any number of times and resumed equally often (or resumed for all) becomes current exactly when its remaining duration at the first interrupt has elapsed after the last resume, whatever happens in between; while interrupted it does not become current. Interrupt levels nest: it continues only after as many resumes as interrupts.",
  ["histories", "schedules"], "every nesting and timing of interrupt and resume",
  "Nesting depth and timing are unbounded; tests have two fixed scenarios.",
  [("interrupt/resume", "Component.interrupt, Component.resume"), ("interrupted hold", "Component.hold")],
  [("_interrupt_level", "nesting", "Component"), ("_remaining_duration", "remaining time", "Component")], ["moment of becoming current, interrupt_level()"])

p("C18", "Generators create exactly the specified components at the specified times",
  "A component generator creates components at exactly its start moment (plus the first inter arrival time unless forced at the start) and then after each inter arrival time, never after its end moment and never more than the given number; with moments, equidistant or spread specifications the components are created exactly at the given moments, equidistantly, or at the given number of moments within the period. The end action of a generator that has to create at least one component is performed exactly once.",
  ["configurations", "schedules"], "every combination of at/delay/till/duration/number/iat/force/moments/disturbance arguments",
  "The argument combinations are many and interact with time shifts.",
  [("set-up", "ComponentGenerator.__init__"), ("generation", "do_iat*, do_spread*, do_iat_disturbance*")], [], ["creation times of components"])

p("C19", "Automatic names are unique and numbered consecutively",
  "For any sequence of creations of named objects, names that end with a period or comma are serialised per base name and kind with consecutive numbers (starting at 0 for a period, 1 for a comma), others are used as given; the reported name, base name and sequence number are consistent. Default names derive from the class of the object.",
  ["histories"], "every sequence of creations and names",
  "All histories of names over several kinds of objects.",
  [("serialisation", "_set_name")], [("_nameserialize*", "counters", "Environment")], ["name(), base_name(), sequence_number()"])

p("C20", "Movements and trajectories are continuous and end where they should",
  "A movement over a length with given start, end and maximum speed and acceleration covers exactly that length in its reported duration, without exceeding the maximum speed and with speed changes limited by the given acceleration and deceleration; its position is non-decreasing in time. A trajectory is at its first point at its start time and at its last point at its end time, also when trajectories are combined.",
  ["inputs"], "every length, speed and acceleration combination and every moment",
  "Real-valued kinematics with several regimes (no cruise phase, speed not reached).",
  [("kinematics", "_Movement"), ("trajectories", "TrajectoryPolygon, TrajectoryStandstill, TrajectoryMerged")], [], ["x(t), y(t), duration(), length()"])

p("C21", "Standby components are run after every event",
  "A component on standby becomes current after each event of another component that does not skip standby, in the order in which components went on standby, at the current time, until it is activated, cancelled or otherwise given another plan; no standby component is ever dropped or run twice for the same event.",
  ["schedules", "histories"], "every mix of standby components, events, skip_standby components and cancellations",
  "Needs particular interleavings of pending and new standby components.",
  [("standby lists", "Environment.step, Component.standby, Component._remove")], [("_standbylist/_pendingstandbylist", "standby components", "Environment")], ["moments of becoming current"])

p("C22", "Simulations are reproducible",
  "Running the same model with the same seed twice gives the same sequence of events, samples and statistics. Switching tracing on or off does not change the course of the simulation.",
  ["programs", "configurations"], "every model",
  "Quantifies over all models and two runs.",
  [("seeding", "random_seed, Environment.__init__"), ("tracing", "print_trace")], [], ["whole runs"])

p("C23", "Yield and yieldless models behave identically",
  "The same model written with and without yields goes through the same sequence of events and gives the same statistics.",
  ["programs"], "every model", "Quantifies over pairs of programs.",
  [("process switching", "Environment.step, Component._push")], [], ["whole runs"])

p("C24", "Animation shows the state without influencing it",
  "Animation objects reflect the state of the simulation at the moment shown and never influence the order of events or statistics.",
  ["programs", "configurations"], "every model with every animation set-up", "Needs a display; rendering is done by external libraries.",
  [("animation", "Animate* classes, Environment.animation_* methods")], [], ["frames"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
