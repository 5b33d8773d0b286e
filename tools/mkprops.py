"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
PY = "uxsim/uxsim.py"; CPP = "uxsim/trafficpp/traffi.cpp"; WR = "uxsim/uxsim_cpp_wrapper.py"; AN = "uxsim/analyzer.py"
H = "uxsim/trafficpp/traffi.h"; BI = "uxsim/trafficpp/bindings.cpp"; DT="uxsim/trafficpp/dta_solver.cpp"
SC = "The reliable tests run a handful of fixed C++ scenarios and check a few end-of-run totals; "

p("P01", "Vehicles are conserved and their life cycle only moves forward",
  "At the end of every time step every vehicle that was ever created is in exactly one of the states home, wait, run, end, abort, and its state only ever advances along home->wait->run->end/abort, never leaving end or abort. A running vehicle is on exactly one link and is held by that link exactly once, a waiting vehicle is queued exactly once at its origin, and no other vehicle occupies a link or a queue. Consequently generated = in network + completed + aborted at every step, on the per-link, per-node and whole-world level, and the world's own vehicle collections agree with it.",
  ["inputs", "configurations", "histories"], "every network, demand, seed and engine option, at every time step",
  SC + "never looks at the per-step membership of links, queues and world collections.",
  [PY, CPP, WR], [("Node.generate / Node.transfer / Vehicle.update / end_trip", PY), ("Node::generate, Node::transfer, Vehicle::update, Vehicle::end_trip", CPP)],
  [("Vehicle.state", "life-cycle state", PY), ("Link.vehicles", "vehicles on a link in entry order", PY), ("Node.generation_queue", "vehicles waiting to depart", PY), ("World.VEHICLES/_LIVING/_RUNNING", "world collections", PY)],
  ["end of each time step (World.user_function, or exec_simulation in one-step chunks)"])

p("P02", "Vehicle motion follows the car-following law exactly at every step",
  "In every time step a running vehicle that stays on its link advances to min(x + u*dt, max(x, x_leader - jam spacing of one platoon per lane)), capped at the link end, where u is the link's current free-flow speed and x_leader the position, at the start of the movement phase, of the vehicle immediately ahead in its lane; so it never moves backward, never exceeds free-flow speed, is never delayed without a cause and never runs past the link end. A vehicle crossing a node carries its unused movement over to the next link, scaled by the ratio of the two free-flow speeds and limited by the same spacing rule. Reported speed equals the displacement actually made within the movement phase divided by the step length, and 0<=x<=length always.",
  ["inputs", "configurations", "histories"], "every vehicle, link geometry, lane number, reaction time, platoon size, speed change and traffic state, at every step",
  SC + "per-step positions are never compared with the car-following law.",
  [PY, CPP], [("Vehicle.carfollow / Vehicle.update", PY), ("Vehicle::car_follow_newell, Vehicle::update", CPP), ("Node.transfer residual movement", PY)],
  [("Vehicle.x, v, lane, link", "kinematic state", PY)], ["end of each time step"])

p("P03", "Per-link FIFO, per-lane spacing and finite storage hold at all times",
  "Vehicles leave every link in exactly the order in which they entered it, and lanes are assigned cyclically in entry order, so no two vehicles ever swap within a lane. While the jam density of a link is unchanged, two consecutive vehicles of a lane are never closer than deltan/(jam density per lane), and a vehicle is admitted to a link only when the vehicle last admitted to that lane is farther than this from the entrance. A link therefore never stores more platoons than lanes*(length/spacing + 1), and a full link blocks upstream entry (spillback).",
  ["inputs", "configurations", "histories"], "every link and every prefix of every run",
  SC + "order and spacing inside a link are not observed.",
  [PY, CPP], [("Link.vehicles deque, lane assignment, acceptance test in Node.generate/transfer", PY), ("same in Node::generate/transfer", CPP)],
  [("Link.vehicles", "entry-ordered content", PY)], ["end of each time step"])

p("P04", "Link inflow and outflow capacities are never exceeded; closed links stay empty",
  "For every link and every window of k consecutive steps the number of vehicles discharged by node transfer is at most capacity_out*k*dt plus an initial credit of less than one platoon per lane plus one step's worth of capacity, and likewise the number admitted (by transfer or generation) for capacity_in; unused credit never accumulates beyond that. The capacities used are those in force at each step, including changes made during the simulation. A link whose capacity_in is zero from the start admits nobody, and one whose capacity_out is zero from the start lets nobody through to another link.",
  ["inputs", "configurations", "histories"], "every link, every window, every capacity value and every run-time change",
  SC + "no test examines all windows of the flow series.",
  [PY, CPP], [("Link.in_out_flow_constraint and the credit tests in Node.generate/transfer", PY), ("Link::update, Node::transfer", CPP)],
  [("Link.capacity_in/out", "limits", PY)], ["end of each time step, link entry and exit counts"])

p("P05", "Node flow capacity is never exceeded",
  "For every node with a flow capacity and every window of k consecutive steps, the number of vehicles transferred through the node is at most flow_capacity*k*dt plus a bounded initial credit (one platoon per node lane plus one step's worth), and unused credit never accumulates beyond that. A node without flow capacity imposes no limit. Vehicles entering the network at the node, or ending their trip there, do not consume this capacity.",
  ["inputs", "configurations", "histories"], "every node, every window, every capacity value and run-time change",
  SC + "no reliable test sets a node capacity in the Python engine.",
  [PY, CPP], [("Node.flow_capacity_update, Node.transfer", PY), ("Node::update, Node::transfer", CPP)],
  [("Node.flow_capacity", "limit", PY)], ["end of each time step, node crossings"])

p("P06", "Signals follow their cycle and no vehicle crosses a node on red",
  "The signal phase of a node with a signal plan [g0,g1,...] advances cyclically and each phase is held for its green time (rounded up to whole steps by the fixed switching rule), starting from the configured offset, and the recorded signal log equals the phase actually in force at each step. A vehicle is transferred from a link only in a step in which the current phase belongs to the link's signal group, or the node has at most one phase; vehicles held by red do move once green if nothing else blocks them. Phases set at run time through the node's attributes take effect from the next step on.",
  ["inputs", "configurations", "histories"], "every signal plan, offset, signal group assignment, step length and run-time override, in both engines",
  SC + "no reliable test checks that nobody crosses on red.",
  [PY, CPP, WR], [("Node.signal_control, Node.transfer", PY), ("Node::signal_control, Node::transfer", CPP)],
  [("Node.signal, signal_phase, signal_t, signal_log", "signal state", PY), ("Link.signal_group", "phases giving green", PY)], ["end of each time step, node crossings"])

p("P07", "Node transfer is work-conserving and honours merge priorities",
  "A vehicle that is first on its link, has reached the link end and has chosen a next link is transferred in the step unless a stated reason exists: red signal, exhausted outflow, inflow or node capacity, no room on the next link, or competing vehicles having used all of the next link's lanes in this step. When several inlinks compete for the same outlink the vehicle served is chosen with probability proportional to the inlinks' merge priorities (equal if all are zero, never a zero-priority link while a positive one competes), and in hard deterministic mode always from the link with the highest priority. A vehicle is only ever transferred to the link it had chosen, which starts where its former link ends.",
  ["inputs", "configurations", "histories"], "every junction layout, lane number, priority, capacity and signal state, at every step",
  SC + "idle capacity and the priority ratio are never measured.",
  [PY, CPP], [("Node.transfer", PY), ("Node::transfer", CPP)],
  [("Link.merge_priority", "merging weight", PY), ("Vehicle.route_next_link", "chosen link", PY)], ["end of each time step, node crossings"])

p("P08", "Demand is generated in the requested amount, time, origin and destination",
  "For any demand (origin, destination, start, end, flow) the vehicles created number the requested volume to within one platoon of deltan vehicles, in any sub-window as well, all with exactly that origin and destination and a departure time inside the window, and for area or multi-node demands origins and destinations belong to the given sets and the total volume is kept to within one platoon per origin-destination pair (or overall for the random-draw variants). No vehicle departs before its departure time; from then on vehicles leave the origin in first-come-first-served order, at most one per outgoing lane and step, and the first one never waits while its only permitted link has room and inflow capacity. Vehicles added individually, and demands given by volume, obey the same rules, and attribute data attached to a demand reaches every vehicle created from it.",
  ["inputs", "configurations"], "every flow value, time window, step length, platoon size, OD layout and engine",
  SC + "only a few round flow values are used.",
  [PY, CPP, WR], [("World.adddemand*, World.addVehicle, Node.generate", PY), ("add_demand, Node::generate", CPP), ("CppWorld.adddemand*", WR)],
  [("Vehicle.departure_time, orig, dest", "trip definition", PY)], ["after scenario definition; end of each time step"])

p("P09", "Cumulative curves and link state queries agree with actual vehicle movements",
  "At every step a link's cumulative arrivals equal deltan times the vehicles that have entered it and its cumulative departures deltan times those that have left it (by transfer or trip end/abort), so both are non-decreasing, departures never exceed arrivals, and their difference equals the vehicles present. The query functions for past times (arrival and departure counts, number of vehicles, queue length, density, flow, speed) return the values that these curves and the vehicle positions imply for that time. Entry times recorded in vehicle logs reproduce the curves.",
  ["inputs", "histories"], "every link, every step, every query time, both engines",
  SC + "curves are checked only at the end of a run in a few scenarios.",
  [PY, CPP, WR], [("Link.update, Link.arrival_count etc., cum_arrival bookkeeping", PY), ("Link bookkeeping", CPP)],
  [("Link.cum_arrival, cum_departure", "cumulative curves", PY)], ["end of each time step and after the run"])

p("P10", "Travel times, travelled routes and travelled distances are mutually consistent",
  "For every completed trip, arrival time minus departure time equals the reported travel time; the travelled route lists exactly the links used in order with their entry times; and the trip's distance equals the total movement along it. The actual link travel time recorded for an entry time is the time the vehicle that entered then took to leave, never less than possible at free flow beyond step rounding, and defaults to the free-flow time before any vehicle has left; the instantaneous link travel time is length divided by current mean speed (free-flow time when empty). Aborted trips report travel time -1 and are counted as aborted, not completed.",
  ["inputs", "histories"], "every vehicle and link of every run, both engines",
  SC + "the three records are never cross-checked.",
  [PY, CPP, WR], [("Vehicle.end_trip, record_log, traveled_route; Link.traveltime_actual/instant", PY), ("same", CPP)],
  [("Vehicle.travel_time, arrival_time, distance_traveled, log_t_link", "trip record", PY), ("Link.traveltime_actual, traveltime_instant", "link times", PY)], ["end of each step and after the run"])

p("P11", "Routes are connected, reach the destination and respect user constraints",
  "The sequence of links a vehicle travels is a path of the network starting at its origin, and a trip is completed only at its destination and immediately upon reaching it. A vehicle with a specified route travels exactly that route; links to avoid are never used; links to prefer are taken whenever available at a node; and a no-cyclic-routing vehicle does not revisit a node while it has an alternative. A vehicle stuck at a dead end is aborted when trip_abort is on and otherwise stays there, and never vanishes.",
  ["inputs", "configurations", "histories"], "every network, route specification, preference/avoid set and seed, both engines",
  SC + "specified routes are exercised in one or two networks only.",
  [PY, CPP, WR], [("Vehicle.route_next_link_choice, Node.generate, enforce_route", PY), ("Vehicle::route_next_link_choice", CPP)],
  [("Vehicle.log_t_link / traveled_route", "links used", PY)], ["end of each time step and after the run"])

p("P12", "Route guidance follows true shortest paths on current travel times",
  "At every route-update time the shortest travel costs and next links used for guidance equal those of an independent shortest-path computation on the link costs then in force (instantaneous travel time plus toll, averaged over parallel links; closed links excluded). Each vehicle's route preference toward each destination moves to the updated shortest-path next link by the configured update weight (fully at the first update), preferences stay in [0,1], and in hard deterministic mode every vehicle at a junction takes the outgoing link with the highest preference among its permitted ones, otherwise links are drawn in proportion to preference. The recorded history of shortest distances, and the instantaneous or theoretical shortest-time queries, match the same reference.",
  ["inputs", "configurations", "histories"], "every network, link cost state, toll, update weight and update instant, both engines",
  "No reliable test compares route guidance with a reference algorithm.",
  [PY, CPP, "uxsim/Utilities/Utilities.py"], [("RouteChoice.route_search_all, homogeneous_DUO_update, route_pref", PY), ("World::route_search_all, route_choice_duo", CPP)],
  [("RouteChoice.dist, next, route_pref", "guidance state", PY)], ["each route-update step"])

p("P13", "Running a simulation in pieces equals running it at once",
  "For any way of cutting the horizon into consecutive exec_simulation calls (with until_t, duration_t, duration_t2, single steps or no argument, with queries and log reads in between), the resulting trajectories, logs, cumulative curves, link states and statistics are identical to those of one uninterrupted call with the same seed. The simulated clock advances as documented (duration_t2 by exactly that time, until_t and duration_t up to and including the step at that time), the run reports completion exactly when the horizon is reached, and no step is executed twice or skipped.",
  ["histories", "schedules", "inputs"], "every partition of the horizon into calls, every seed and scenario, both engines",
  "Tests use one or two fixed partitions and compare totals.",
  [PY, CPP, WR], [("World.exec_simulation, simulation_terminated, check_simulation_ongoing", PY), ("World::main_loop", CPP)],
  [("World.T / TIME", "clock", PY)], ["public state after each call and after the run"])

p("P14", "Simulations are reproducible from the seed and isolated from each other",
  "Two worlds built from the same definition with the same seed produce identical results in the same process, in another process, under any string-hash seed, whatever the state of the global random generators and whatever other worlds are created or run (even interleaved step by step) in between. Creating, running or analysing a world never changes the state or results of another world, and does not disturb the global random generators' effect on it. Changing only the seed leaves the demand definition (trip set) of deterministic demands unchanged.",
  ["inputs", "schedules", "configurations"], "every scenario, seed, hash seed, interleaving of worlds, both engines",
  "Tests run each world once in one process.",
  [PY, CPP, WR], [("World.rng / random_seed", PY), ("per-entity RNG streams", CPP)],
  [("World.rng", "private generator", PY)], ["digest of complete results"])

p("P15", "The parallel engine's result does not depend on threads or scheduling",
  "For a given scenario and seed the C++ engine gives bit-identical results (trajectories, logs, cumulative curves, route preferences, statistics) for every number of threads and every order in which the parallel workers execute, including errors: a scenario that raises does so with the same exception whatever the schedule.",
  ["schedules", "configurations", "inputs"], "every thread count and every worker schedule",
  "Tests run under whatever schedule the OS gives, with the default thread count.",
  [CPP, H], [("OpenMP regions in World::main_loop, route_search_all, route_choice_duo; `single` transfer; sorted incoming", CPP)],
  [("World state", "everything updated in parallel regions", CPP)], ["digest of complete results per schedule"])

p("P16", "The C++ engine is equivalent to the Python engine",
  "For the same scenario in hard deterministic mode both engines give the same trajectories (state, link, position, speed of every vehicle at every step, to floating-point accuracy), cumulative curves and trip times; in stochastic mode both obey the same per-step laws and their deterministic parts (generated demand, signals, capacities) are identical. The shared API returns the same kind of answer from both: same names, types, units and error behaviour for world, node, link and vehicle queries.",
  ["inputs", "configurations"], "every scenario supported by both engines",
  "Tests compare a few aggregate numbers of fixed scenarios with tolerance.",
  [PY, CPP, WR, BI], [("two implementations of the same model", PY + ", " + CPP)],
  [("vehicle and link state", "compared step by step", WR)], ["end of each time step in both engines"])

p("P17", "The C++ engine is memory-safe and free of undefined behaviour for any API use",
  "Any sequence of API calls on the C++ engine, including invalid names, zero or negative or huge parameters, early or repeated execution, reading results at any time, and destroying objects in any order, either succeeds or raises a Python exception; it never reads or writes invalid memory, never executes undefined behaviour and never crashes the interpreter. Views returned to the caller stay valid and unchanged after the world continues to run or is deleted.",
  ["inputs", "programs", "fault_sequences"], "every call sequence and argument",
  "Tests run an unsanitized build on well-formed scenarios.",
  [CPP, H, BI, DT, "uxsim/trafficpp/utils.h", WR], [("bindings argument conversion, owned numpy copies, unique_ptr ownership, exception translation", BI)],
  [("World heap", "nodes, links, vehicles owned by World", H)], ["sanitizer reports (ASan+UBSan), exit status of the process"])

p("P18", "The C++ engine's parallel regions are free of data races",
  "During any simulation step, route search or route-preference update of the C++ engine, no two worker threads access the same memory location without ordering when at least one of them writes, for any scenario and thread count. This includes error paths, logging on or off, gradual and discrete route updates, and concurrent independent worlds.",
  ["schedules", "inputs"], "every interleaving of worker threads in every scenario",
  "Tests cannot observe races; they run once under benign schedules.",
  [CPP, H], [("OpenMP parallel for / barriers / critical / single in World::main_loop and route choice", CPP)],
  [("shared simulation state", "links, nodes, vehicles, tables", H)], ["ThreadSanitizer reports"])

p("P19", "Saving and loading a scenario reproduces the same simulation",
  "For any scenario (nodes, links, demands made by the adddemand functions, and their attributes, coordinates, signals, capacities, priorities, lane numbers, tolls) saving it to a file and loading it into a world with the same settings gives the same network and trip set, and therefore an identical simulation. Loading never drops, duplicates, reorders or changes an object's parameters, and saving again yields an equivalent file.",
  ["inputs"], "every scenario definable through the supported calls",
  "No reliable test saves and loads scenarios.",
  [PY, "uxsim/scenario_reader_writer.py"], [("World.save_scenario, load_scenario", PY), ("reader/writer", "uxsim/scenario_reader_writer.py")],
  [("scenario file", "serialised definition", PY)], ["files and worlds after load"])

p("P20", "Copying or pickling a world at any moment preserves it exactly",
  "A world copied in memory or saved to and loaded from a file, at any step of a simulation, continues exactly as the original would have: same trajectories, logs, statistics and random choices. The copy shares nothing with the original: running, changing or deleting one never affects the other, and saving or copying does not alter the world being saved.",
  ["crash_points", "histories", "inputs"], "every scenario and every step at which the copy is taken",
  "No reliable test copies a world mid-run.",
  [PY], [("World.copy, World.save, World.load_scenario/load", PY)],
  [("World object graph", "everything reachable", PY)], ["digest of complete results of original and copy"])

p("P21", "Reported statistics equal those recomputed from the vehicle records",
  "Trip counts (all, completed, aborted), total and average travel time, delay and distance travelled, origin-destination tables, link tables (volume, remaining vehicles, free and average travel time, delay) and the tabular exports all equal the values recomputed independently from vehicle records and cumulative curves, at the end of a run or in the middle. Counts are in vehicles (multiples of deltan), completed never exceeds all trips, and per-OD, per-link, per-area and per-group tables add up to the totals. Calling them repeatedly gives the same result.",
  ["inputs", "histories"], "every scenario, outcome (including no completed trips), aggregation choice, both engines",
  "Tests check a few numbers with wide tolerance, and most analysis tests cannot run here.",
  [AN, PY, WR], [("Analyzer.basic_analysis, od_analysis, link_analysis_coarse, *_to_pandas, area2area...", AN)],
  [("Analyzer tables", "statistics", AN)], ["after or during a run"])

p("P22", "Spatio-temporal traffic states obey Edie's definitions and conserve totals",
  "For every link the density, flow and speed of each space-time cell equal Edie's generalized definitions applied to the recorded trajectories, so that summing density*area and flow*area over the cells returns the total time spent and total distance travelled on the link, flow=density*speed in each cell and values are non-negative and finite. The network-level MFD values aggregate exactly these per time bin over the chosen links.",
  ["inputs", "histories"], "every link, cell size, trajectory set, both engines",
  "No reliable test computes these from trajectories.",
  [AN, PY], [("Analyzer.compute_accurate_traj, compute_edie_state, macroscopic_fundamental_diagram, link_to_pandas-type exports", AN)],
  [("Link.k_mat,q_mat,v_mat,tn_mat,dn_mat", "cell states", AN)], ["after a run"])

p("P23", "Run-time controls take effect exactly from the next step and only where applied",
  "Changing a link's free-flow speed, jam density or capacities, a toll, a signal phase or plan, or a node capacity during the simulation governs behaviour from the next step on, leaves every earlier record untouched and leaves other links and nodes unaffected. Derived link parameters (speed, jam density, wave speed, spacing, capacity) stay mutually consistent with the changed one after the change. User functions attached to the world, a node, a link or a vehicle are called exactly once per simulation step in which their object is active, with that object.",
  ["histories", "inputs"], "every kind of change, at every step, in any combination",
  "Tests apply few changes and look only at totals.",
  [PY, WR, CPP], [("Link.change_free_flow_speed, change_jam_density, congestion_pricing, user_function hooks", PY), ("property setters", WR)],
  [("Link.u, kappa, w, delta, capacity*", "parameters", PY)], ["end of each time step"])

p("P24", "Simulated flow reproduces kinematic-wave theory",
  "On a link with free traffic every vehicle traverses it in the free-flow time to within one step; a queue discharges at the bottleneck's capacity and never faster than the fundamental diagram permits, to within discretisation; congested regions lie on the triangular fundamental diagram and the queue tail moves at the shock speed it implies. Merges (in the ratio of the priorities), diverges and first-in-first-out blocking share flow accordingly, and results agree on the same macroscopic totals, to within the discretisation, when the platoon size or time step is changed.",
  ["inputs", "configurations"], "every fundamental diagram, demand level, bottleneck, lane number, platoon size",
  "Tests cover a few parameter combinations with relative tolerances.",
  [PY, CPP], [("Newell car following + incremental node model", PY), ("same", CPP)],
  [("flow and density series", "derived", PY)], ["cumulative curves and travel times after a run"])

p("P25", "Route assignment solvers only produce valid assignments and honest records",
  "Every assignment produced by a DUE/DSO/ALNS/GA solver, at every iteration, gives each vehicle exactly one feasible route between its own origin and destination, taken from the enumerated or user-given route set once the solver assigns it; the demand (vehicles, departure times, ODs) never changes between iterations, and the simulated vehicles follow the assigned routes exactly. Reported per-iteration records (total travel time, number of swaps, route and cost logs, gap) equal values recomputed from the corresponding simulation, and day-to-day route swaps happen only toward a route that was actually cheaper. The returned solution is a real simulation of the recorded assignment (for the optimising solvers the best one found in which all trips were finished).",
  ["inputs", "histories", "configurations"], "every network, demand, solver, iteration and seed, both engines",
  "Solver tests are slow and need the full stack; they only check that total travel time improves on one network.",
  ["uxsim/DTAsolvers/DTAsolvers.py", "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py", "uxsim/DTAsolvers/ALNS.py", DT], [("SolverDUE, SolverDSO_D2D, SolverDSO_ALNS, SolverDSO_GA", "uxsim/DTAsolvers/DTAsolvers.py")],
  [("route_log, cost_log, ttts, n_swaps", "iteration records", "uxsim/DTAsolvers/DTAsolvers.py")], ["scenario callback and solver records"])

p("P26", "Taxi dispatch serves every request at most once and conserves passengers",
  "Each trip request is assigned to at most one taxi, picked up once at its origin after its request time and dropped off once at its destination after pickup; at every step each request is exactly one of waiting, assigned, on board or completed. With the given dispatchers a taxi serves one request at a time, it never serves requests it was not assigned, and it visits the pick-up before the drop-off. Recorded waiting and travel times equal the differences of the observed event times.",
  ["inputs", "histories"], "every fleet, request pattern, dispatch strategy, network and seed",
  "No reliable test runs the taxi module.",
  ["uxsim/TaxiHandler/TaxiHandler.py", PY], [("TripRequest, TaxiHandler.assign_trip_request_to_taxi, node_event, Vehicle.dest_list", "uxsim/TaxiHandler/TaxiHandler.py")],
  [("trip_requests, vacancies, onboard", "dispatch state", "uxsim/TaxiHandler/TaxiHandler.py")], ["end of each time step"])

p("P27", "Network utilities return correct shortest, k-shortest and random routes",
  "Shortest travel time and distance queries between nodes (free-flow, instantaneous or at a past time) equal an independent shortest-path computation on the same network state. Enumerated k-shortest routes are distinct loop-free connected routes from origin to destination in non-decreasing cost, include the true optimum and number min(k, available); randomly enumerated routes are connected, loop-free and distinct, and time-dependent route evaluation equals walking the recorded link travel times.",
  ["inputs"], "every network (with parallel links excluded from route identity), k, cost state and time",
  "No reliable test compares these with a reference.",
  ["uxsim/Utilities/Utilities.py", PY], [("get_shortest_path_*, enumerate_k_shortest_routes*, enumerate_k_random_routes; Route.actual_travel_time", "uxsim/Utilities/Utilities.py")],
  [], ["function results"])

p("P28", "Names identify objects uniquely and lookups never return the wrong object",
  "Every node, link and vehicle in a world has a unique name; adding a second node or link with an existing name raises an error, or with automatic renaming creates an object under a fresh unique name and uses it consistently. Looking up by name or by the object itself returns exactly that object, and looking up something unknown, or an object of another world's unknown name, raises a clear error instead of returning something else. Objects get consecutive identifiers in creation order and inlink/outlink tables mirror the link endpoints exactly.",
  ["inputs", "programs"], "every sequence of additions and lookups, both engines",
  "Tests cover a few name clashes in each engine.",
  [PY, WR, BI], [("World.addNode/addLink/get_node/get_link/get_vehicle, auto_rename, dicts", PY), ("CppWorld equivalents", WR)],
  [("World.NODES/LINKS/VEHICLES and name dicts", "registries", PY)], ["API results after each call"])

p("P29", "Vehicle logs are a faithful, complete record of the observed states",
  "For every vehicle the logged time, state, link, position, speed and lane series have equal lengths and contain, for each logged step from the start of the simulation until its end, exactly the state the vehicle had at that step as observable live; nothing is logged twice, skipped or altered afterwards. Logs and all derived quantities read in the middle of a simulation are a prefix of those read at its end. The link entry log lists every link change with the time at which it happened.",
  ["histories", "inputs"], "every vehicle, every step, read at any time, both engines",
  "Tests read logs once at the end of small runs and do not compare them with live states.",
  [PY, CPP, WR], [("Vehicle.record_log, log_t_link", PY), ("log reconstruction in wrapper and bindings", WR + ", " + BI)],
  [("Vehicle.log_*", "trajectory log", PY)], ["end of each time step and after the run"])

p("P30", "Observation options never change the simulated outcome",
  "Printing, progress display, log saving, statistics interval, plotting intervals and result folders, as well as calling any analysis, query or export function during or after a run, never change the trajectories, travel times or cumulative curves that the same scenario and seed give without them. With logging switched off, counts and trip statistics that do not need logs are the same as with it on.",
  ["configurations", "histories", "inputs"], "every combination of observation options and analysis calls, at any time, both engines",
  "Tests use one combination of options each.",
  [PY, AN, WR, CPP], [("World options print_mode, save_mode, vehicle_logging_timestep_interval, show_progress, ...; Analyzer", PY)],
  [], ["digest of dynamic results"])

p("P31", "OSM network simplification preserves connectivity and attributes",
  "Simplifying an imported road network only merges nodes joined by links not longer than the threshold, keeps every other link (one per ordered node pair) with its name, lanes and speed, and recomputes lengths from node coordinates; every remaining link end is a remaining node, and there are no self-loops and no isolated nodes. A surviving node that was reachable from another surviving node before is still reachable, and with bidirectional enforcement every link has a reverse. The created world contains exactly the post-processed nodes and links with these attributes.",
  ["inputs"], "every input network and threshold",
  "OSM tests need the network and do not run here.",
  ["uxsim/OSMImporter/OSMImporter.py", "uxsim/OSMImporter2/OSMImporter2.py"], [("osm_network_postprocessing, osm_network_to_World", "uxsim/OSMImporter/OSMImporter.py")],
  [], ["function results"])

p("P32", "CSV tables define exactly the scenario they describe",
  "Loading node, link and demand tables (with or without header, trailing empty column, quoting, volume cells; in one call or three; both engines) creates exactly the nodes, links and vehicles that the rows describe, in their order, next to what already exists: the world equals, object by object and over its whole run, the one built with the corresponding addNode, addLink and adddemand calls. The tmax argument sets the duration, and a row that cannot be read raises an error instead of being skipped.",
  ["inputs"], "every table of the documented columns",
  "A test loads two shipped tables and checks totals of the run; it cannot see a wrong attribute, a lost row or a misread optional column in other tables.",
  ["uxsim/uxsim.py", "uxsim/uxsim_cpp_wrapper.py", "dat/"], [("load_scenario_from_csv, generate_Nodes_from_csv, generate_Links_from_csv, generate_demand_from_csv", "uxsim/uxsim.py")],
  [], ["world objects", "run"])
p("P33", "User functions are called once per step and do not disturb the run",
  "In the Python engine, the function given to a node, link, vehicle or world is called exactly once in every executed time step with that object - for a vehicle from the step after its creation until its trip ends, for the world after everything else of the step - with the world's clock at that step, whether the run is executed at once or in pieces, and also if it is set, removed or its vehicle added during the run. A function that only reads never changes the outcome, and an action of the world's function has the same effect as the same action between two steps.",
  ["inputs", "histories"], "every scenario, set of functions and way of executing",
  "Tests print from a few functions; they cannot show that no step or object is skipped or repeated, nor that reading in the middle of a step has no effect.",
  ["uxsim/uxsim.py"], [("Node.update, Link.update, Vehicle.update, World.exec_simulation", "uxsim/uxsim.py")],
  [], ["calls of user functions", "logs", "outcome"])
p("P34", "Figures are made and show the recorded values",
  "Every figure or animation asked for (time-space diagrams, cumulative curves, network states simple, detailed, averaged and animated, MFD, vehicle logs, network shape) is made and saved for links given as object, name, list or by default, for any duration and step size and any node layout, and what it draws - points, curves, cell values, widths, colours, red times, positions and times - are the recorded logs, counts, travel times and cell states of the links, vehicles and times asked for.",
  ["inputs", "histories"], "every scenario, figure and argument",
  "The plotting functions turn exceptions into warnings, and the tests only call them; a missing or wrong figure passes.",
  ["uxsim/analyzer.py", "uxsim/uxsim.py"], [("time_space_diagram_traj_links, time_space_diagram_density, cumulative_curves, network, network_average, network_pillow, network_anim, macroscopic_fundamental_diagram, plot_vehicle_log", "uxsim/analyzer.py"), ("show_network", "uxsim/uxsim.py")],
  [], ["drawn data", "saved files"])

p("P35", "The result viewer shows the recorded results",
  "For every finished run with at least one complete aggregation interval, on either engine, launch_World_viewer opens a window (and, unless asked to return it, waits until it is closed) whose slider covers all aggregation intervals; at every frame each cell of each link is painted between the right nodes with the colour and width of its recorded speed and density in that interval, nodes and names stand at their positions (one scale for both directions, y upwards), the label gives the time, play and stop step through the frames cyclically, a highlighted vehicle is marked exactly where its log puts it in that interval - also after another one was highlighted -, the data tables equal the analyzer's, and menus and exports act on the link and kind chosen. Looking never changes the results and never ends in an exception.",
  ["inputs", "histories"], "every finished run and sequence of user actions",
  "A test can only open the window on one world; it cannot see what is painted for other frames, links, vehicles and sequences of actions.",
  ["uxsim/ResultGUIViewer/ResultGUIViewer.py", "uxsim/analyzer.py"], [("launch_World_viewer, MainWindow, GraphWidget, EdgeItem, PandasModel", "uxsim/ResultGUIViewer/ResultGUIViewer.py")],
  [], ["painted shapes", "widgets", "tables"])

p("P36", "The ALNS search obeys its rules and returns the best accepted solution",
  "For every start solution, objective, sense, domains and parameters, each step of uxsim.DTAsolvers.ALNS evaluates exactly one candidate that differs from the current solution only at the destroyed positions (between k_min and the current size, contiguous for the segment operator, given another value of their domain); candidates that are not worse, and all if always_accept, are accepted, worse ones with the annealing probability of a temperature falling geometrically from T0 to Tend; operator weights are updated per segment from the rewards. Logs state what happened, the solution returned is the best accepted one with its objective value, maximising f is minimising -f, the same generators give the same search, invalid arguments raise ValueError, and neither the arguments nor results already handed out are changed.",
  ["inputs", "histories"], "every problem, parameter set and way of running",
  "Tests check that a solver improves on one scenario; they cannot see a wrong best solution, a value outside of its domain or a broken acceptance rule.",
  ["uxsim/DTAsolvers/ALNS.py"], [("init_alns, auto_step, run_auto, finalize, destroy_*, _repair_random", "uxsim/DTAsolvers/ALNS.py")],
  [], ["objective evaluations", "step logs", "returned solution"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
