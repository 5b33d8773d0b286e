"""P16 the C++ engine is equivalent to the Python engine: the same scenario is run step by step on both in hard deterministic
mode and everything observable is compared; in stochastic mode the generated vehicles, signals and capacities are compared."""
import hashlib, random
import numpy as np
from vmon import scen, env, digest

TECHNIQUE = "differential trace oracle: lockstep run of both real engines on one scenario, comparing every vehicle, link and node after every step, every table at the end, and the answers and errors of the shared query API"
LEVEL_NOTE = "Exploration of sampled scenarios; a run is compared until the first step where two routes have exactly equal cost and the engines pick different ones (counted as cut-at-tie)."
ASSUME = ["where several next links have exactly the same cost both engines are right whichever they choose",
          "user functions, taxi mode, saving and copying exist in the Python engine only"]
RULE = ("Scenarios by seed over all topologies with lanes, signals, priorities, tolls, capacities, routing constraints, run-time control events, gradual and periodic route updates. "
        "Non-trivial: at least one vehicle entered a link; distinct by the hash of the compared vehicle states.")
REQUIRED = ["steps-compared", "vehicle-states", "link-states", "node-states", "hard-runs", "stochastic-builds", "to-the-end", "tables", "event-veh_avoid", "event-veh_prefer", "event-veh_route", "event-addveh", "event-adddem", "open-ended", "calls", "calls-raising", "events-applied", "multilane-ends"]
BUDGET = dict(quick=45, thorough=700)


def jobs(tier, seed):
    n = 330 if tier == "quick" else 8000
    base = seed * 1_000_003 + 16 * 20_011
    out = []
    for i in range(n):
        opts = dict(max_platoons=90, hard=True) if i % 6 else dict(max_platoons=90, hard=False)
        if i % 2:
            opts["events"] = 4
            opts["event_kinds"] = ["u", "kappa", "cap_out", "cap_in", "node_cap", "signal", "phase", "prio", "sg", "toll"]
        if i % 3 == 0:
            opts.update(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
        if i % 16 == 3:
            opts.update(world=dict(tmax=None), p_vehicles=1.0, deltan=10, steps=100)
        if i % 5 == 0:
            opts["odd_dt"] = 0.6
        out.append(dict(seed=(base + i) % (1 << 31), cpp=True, opts=opts, so="plain"))
    return out


def norm(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    if hasattr(v, "columns") and hasattr(v, "values"):
        return ["table", list(v.columns), [[norm(x) for x in r] for r in v.values.tolist()]]
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()]
    if isinstance(v, dict):
        return {str(norm(k)): norm(x) for k, x in v.items()}
    if hasattr(v, "links") and hasattr(v, "actual_travel_time") and not hasattr(v, "kappa"):
        return ["route", [l.name for l in v.links]]
    if hasattr(v, "name"):
        return "<%s>" % v.name
    try:
        return [norm(x) for x in v]
    except TypeError:
        return "<%s>" % type(v).__name__


def diff(a, b, tol=1e-6):
    """None when equal up to floating point accuracy, else a short text"""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= tol * max(1, abs(a), abs(b)):
            return None
        return f"{a!r} vs {b!r}"
    if type(a) is not type(b):
        return f"{str(a)[:60]} vs {str(b)[:60]}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{len(a)} vs {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol)
            if d:
                return f"[{i}] {d}"
        return None
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"keys {sorted(set(a) ^ set(b))[:4]}"
        for k in a:
            d = diff(a[k], b[k], tol)
            if d:
                return f"{k}: {d}"
        return None
    return None if a == b else f"{a!r} vs {b!r}"


def call(f):
    try:
        return ("ok", norm(f()))
    except Exception as e:
        return ("raised", type(e).__name__ + ": " + str(e)[:80])


VEH = ("state", "link", "x", "v", "orig", "dest", "departure_time", "arrival_time", "travel_time", "distance_traveled", "flag_trip_aborted", "id", "trip_abort")
LINK = ("num_vehicles", "num_vehicles_queue", "speed", "density", "flow", "u", "kappa", "w", "delta", "delta_per_lane", "capacity", "capacity_in", "capacity_out", "merge_priority", "signal_group",
        "number_of_lanes", "length", "id", "start_node", "end_node", "q_star", "k_star", "capacity_in_remain", "capacity_out_remain")
NODE = ("flow_capacity", "number_of_lanes", "id", "x", "y", "inlinks", "outlinks", "signal", "cycle_length", "signal_log", "signal_offset", "flow_capacity_remain")
TABLES = ("basic_to_pandas", "od_to_pandas", "mfd_to_pandas", "link_to_pandas", "link_traffic_state_to_pandas", "link_cumulative_to_pandas", "vehicles_to_pandas", "vehicle_trip_to_pandas", "gps_like_log_to_pandas")


class Tie(Exception):
    pass


def picture(o, attrs):
    return [norm(getattr(o, a)) for a in attrs]


def sections(W, names):
    """what the two engines must agree on after a step; the vehicles keyed by creation order"""
    V = {}
    for i, v in enumerate(W.VEHICLES.values()):
        p = picture(v, VEH)
        if p[0] == "run":
            p += [norm(v.lane), norm(v.leader.name if v.leader is not None else None)]
        else:
            p[2] = p[3] = None        # position and speed have a meaning on a link only
        V[names[i] if names else v.name] = p
    return V


def adopt_names(W, names):
    return dict(zip([v.name for v in W.VEHICLES.values()], names))


def route_tie(A, B):
    """the preferences of the engines differ: is the difference only between routes of equal cost? returns text or None"""
    pa = np.array(A.ROUTECHOICE.route_pref) if not isinstance(A.ROUTECHOICE.route_pref, dict) else np.array([[r[l.id] for l in A.LINKS] for r in A.ROUTECHOICE.route_pref.values()])
    pb = np.array(B._cpp_world.route_preference)
    if pa.shape != pb.shape or np.allclose(pa, pb, atol=1e-9):
        return None
    return "differ"


def is_tie(A):
    """Bellman check on the Python engine's own cost: does any node have two outgoing links that both continue a least-cost route?"""
    nodes = list(A.NODES)
    n = len(nodes)
    cost = {}
    for l in A.LINKS:
        c = l.traveltime_instant[-1] if len(l.traveltime_instant) else l.length / l.u
        if l.congestion_pricing is not None:
            c += l.get_toll(A.TIME)
        if l.capacity_in == 0 or l.capacity_out == 0:
            c = max(c, 1e9)
        cost[l.name] = c
    INF = float("inf")
    for k in nodes:
        d = {x.name: INF for x in nodes}
        d[k.name] = 0.0
        for _ in range(n):
            ch = False
            for l in A.LINKS:
                z = d[l.end_node.name] + cost[l.name]
                if z < d[l.start_node.name] - 1e-12:
                    d[l.start_node.name] = z
                    ch = True
            if not ch:
                break
        for x in nodes:
            if x is k or d[x.name] == INF:
                continue
            near = [l for l in x.outlinks.values() if abs(cost[l.name] + d[l.end_node.name] - d[x.name]) <= 1e-7 * max(1, d[x.name])]
            if len(near) > 1:
                return True
    return False


def run(job):
    spec = scen.generate(job["seed"], **job["opts"])
    hard = job["opts"]["hard"]
    if spec["world"]["tmax"] is None and spec["vehicles"]:
        spec["vehicles"][-1]["t"] = random.Random(job["seed"]).choice([0, 1790, 1810, 2500, 3650])
    r = random.Random(job["seed"] * 11 + 1)
    c, viol = {}, []

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n

    def bad(rule, msg):
        if len(viol) < 4:
            viol.append((rule, msg))

    def both(what, fa, fb):
        a, b = call(fa), call(fb)
        cnt("calls")
        if a[0] != b[0]:
            bad("api-errors", f"{what}: Python {a[0]} {str(a[1])[:70]}, C++ {b[0]} {str(b[1])[:70]}")
        elif a[0] == "ok":
            d = diff(a[1], b[1])
            if d:
                bad("api-answers", f"{what}: Python vs C++: {d[:150]}")
        else:
            cnt("calls-raising")
    h = hashlib.blake2b(digest_size=8)
    with env.quiet():
        A = scen.build_world(spec, False)
        B = scen.build_world(spec, True)
        deterministic = all(d["kind"] in ("od", "nodes2nodes") for d in spec["demands"])
        names = [v.name for v in A.VEHICLES.values()]
        if len(names) != len(B.VEHICLES):
            bad("generated-vehicles", f"{len(names)} vehicles in the Python engine, {len(B.VEHICLES)} in the C++ engine")
            return dict(viol=viol, count=c)
        for i, (a, b) in enumerate(zip(A.VEHICLES.values(), B.VEHICLES.values())):
            x, y = [norm(getattr(a, q)) for q in ("orig", "dest", "departure_time", "id")], [norm(getattr(b, q)) for q in ("orig", "dest", "departure_time", "id")]
            if diff(x, y):
                bad("generated-vehicles", f"vehicle {i} ({a.name}): Python {x}, C++ {y}")
                break
        ever_run = set()
        moved = False
        if not hard:
            cnt("stochastic-builds")
        else:
            cnt("hard-runs")
            if spec["world"]["tmax"] is None:
                cnt("open-ended")
            A.finalize_scenario()
            B.finalize_scenario()
            both("TMAX, TSIZE, DELTAT", lambda: [A.TMAX, A.TSIZE, A.DELTAT, A.DELTAT_ROUTE], lambda: [B.TMAX, B.TSIZE, B.DELTAT, B.DELTAT_ROUTE])
        evs = {}
        for e in spec["events"]:
            evs.setdefault(e["step"], []).append(e)
        dt = A.DELTAT
        cut = False
        bnames = [v.name for v in B.VEHICLES.values()]
        tie_seen = False
        call_at = set(r.sample(range(1, 60), 2)) if hard else set()
        if not hard:
            A.finalize_scenario()
            B.finalize_scenario()
        for k in range(10 ** 6):
            if not A.check_simulation_ongoing():
                break
            if not B.check_simulation_ongoing():
                bad("clock", f"step {k}: the C++ simulation has ended, the Python one has not")
                break
            A.exec_simulation(duration_t2=dt)
            B.exec_simulation(duration_t2=dt)
            if A.T != B.T or abs(A.TIME - B.TIME) > 1e-6:
                bad("clock", f"after {k + 1} steps: T {A.T}/{B.T}, TIME {A.TIME}/{B.TIME}")
                break
            # deterministic parts, whatever the mode
            for a, b in zip(A.NODES, B.NODES):
                sig = len(a.signal) > 1
                x = picture(a, NODE) + ([norm(a.signal_phase), norm(a.signal_t)] if sig else [])
                y = picture(b, NODE) + ([norm(b.signal_phase), norm(b.signal_t)] if sig else [])
                if not hard:
                    x[-1 if not sig else -3] = y[-1 if not sig else -3] = None
                if not sig:
                    x[NODE.index("cycle_length")] = y[NODE.index("cycle_length")] = None
                    x[NODE.index("signal_log")] = y[NODE.index("signal_log")] = None
                if a.flow_capacity is None:
                    x[NODE.index("flow_capacity_remain")] = y[NODE.index("flow_capacity_remain")] = None
                d = diff(x, y)
                cnt("node-states")
                if d:
                    i = int(d.split("]")[0][1:]) if d.startswith("[") else -1
                    bad("node", f"step {k}: node {a.name} {(NODE + ('signal_phase', 'signal_t'))[i]}: {d}")
            if not hard:
                cnt("steps-compared-stochastic")
                if k > 40:
                    break
                if k in evs:
                    for e in evs[k]:
                        scen.apply_event(A, e)
                        scen.apply_event(B, e)
                if viol:
                    break
                continue
            va, vb = sections(A, None), sections(B, names)
            back = dict(zip(bnames, names))
            for p in vb.values():
                if len(p) > len(VEH):
                    p[-1] = back.get(p[-1], p[-1]) if p[-1] is not None else None
            for nm, p in va.items():
                cnt("vehicle-states")
                d = diff(p, vb[nm])
                if d:
                    # a vehicle on another link than in the other engine, with two equally good routes: both are right
                    if tie_seen or is_tie(A):
                        cut = True
                        cnt("cut-at-tie")
                    else:
                        bad("vehicle", f"step {k}: vehicle {nm}: Python {dict(zip(VEH + ('lane', 'leader'), p))} vs C++: {d}")
                    break
            if cut or viol:
                break
            if any(x[0] == "end" and nm in ever_run for nm, x in va.items()):
                pass
            for nm, p in va.items():
                if p[0] == "run":
                    moved = True
                    ever_run.add(nm)
            h.update(repr([(nm, p[0], p[1], round(p[2] or 0, 3)) for nm, p in va.items() if p[0] == "run"]).encode())
            for a, b in zip(A.LINKS, B.LINKS):
                cnt("link-states")
                x, y = picture(a, LINK) + [[v.name for v in a.vehicles]], picture(b, LINK) + [[back.get(v.name, v.name) for v in b.vehicles]]
                d = diff(x, y)
                if d:
                    i = int(d.split("]")[0][1:]) if d.startswith("[") else -1
                    bad("link", f"step {k}: link {a.name} {(LINK + ('vehicles',))[i]}: {d}")
                    break
                if a.number_of_lanes > 1 and a.cum_departure and len(a.cum_departure) > 1 and a.cum_departure[-1] - a.cum_departure[-2] >= 2 * A.DELTAN:
                    cnt("multilane-ends")
            cnt("steps-compared")
            if sorted(A.VEHICLES_LIVING) != sorted(back.get(x, x) for x in B.VEHICLES_LIVING) or sorted(A.VEHICLES_RUNNING) != sorted(back.get(x, x) for x in B.VEHICLES_RUNNING):
                bad("registries", f"step {k}: living/running vehicles differ")
            if k in evs:
                for e in evs[k]:
                    both(f"step {k}: {e}", lambda: scen.apply_event(A, e), lambda: scen.apply_event(B, e))
                    cnt("events-applied")
                    cnt("event-" + e["kind"])
                if len(A.VEHICLES) != len(names):
                    names[:] = [v.name for v in A.VEHICLES.values()]
                    bnames[:] = [v.name for v in B.VEHICLES.values()]
                    if len(names) != len(bnames):
                        bad("generated-vehicles", f"step {k}: {len(names)} vehicles in the Python engine, {len(bnames)} in the C++ engine after {evs[k]}")
                        break
                back = dict(zip(bnames, names))
            if route_tie(A, B):
                if is_tie(A):
                    tie_seen = True
                elif A.T % max(1, int(A.DELTAT_ROUTE)) == 1 or A.route_choice_update_gradual:
                    # the tie may have been at the search, one step ago: decide at the next vehicle that differs
                    cnt("preferences-differ")
            if viol:
                break
            if k in call_at:
                calls(A, B, names, both, r, f"step {k}: ", mid=True)
                if viol:
                    break
        if hard and not cut and not viol:
            cnt("to-the-end")
            back = dict(zip(bnames, names))
            for a, b in zip(A.LINKS, B.LINKS):
                for q in ("cum_arrival", "cum_departure", "traveltime_actual", "traveltime_instant"):
                    d = diff(norm(getattr(a, q)), norm(getattr(b, q)))
                    if d:
                        bad("curves", f"link {a.name} {q}: {d}")
                if sorted(float(t) for t in a.vehicles_enter_log) != sorted(float(t) for t in b.vehicles_enter_log):
                    d = diff(sorted(float(t) for t in a.vehicles_enter_log), sorted(float(t) for t in b.vehicles_enter_log))
                    if d:
                        bad("curves", f"link {a.name} vehicles_enter_log: {d}")
            for a, b in zip(A.VEHICLES.values(), B.VEHICLES.values()):
                for q in ("log_t", "log_x", "log_v", "log_state", "log_link", "log_lane", "log_s", "log_t_link"):
                    d = diff(norm(getattr(a, q)), norm(getattr(b, q)))
                    if d:
                        bad("logs", f"vehicle {a.name} {q}: {d}")
                        break
            if not viol:
                unnamed = "name" not in str(spec["vehicles"])
                for t in TABLES:
                    x, y = call(lambda: getattr(A.analyzer, t)()), call(lambda: getattr(B.analyzer, t)())
                    cnt("tables")
                    if x[0] == y[0] == "ok":
                        rename(y[1], back)
                    d = diff(list(x) if x[0] == "ok" else x[0], list(y) if y[0] == "ok" else y[0])
                    if d:
                        bad("tables", f"{t}: {d}")
                for q in ("trip_all", "trip_completed", "total_travel_time", "average_travel_time", "average_delay", "total_distance_traveled", "average_speed"):
                    d = diff(norm(getattr(A.analyzer, q)), norm(getattr(B.analyzer, q)))
                    if d:
                        bad("tables", f"analyzer.{q}: {d}")
            calls(A, B, names, both, r, "at the end: ")
            if not viol:
                misuse(A, B, both, r)
    res = dict(viol=viol, count=c)
    if moved:
        res["sig"] = h.hexdigest()
    if job["seed"] % 61 == 0:
        res["sample"] = dict(seed=job["seed"], topo=spec["topo"], world=spec["world"], vehicles=len(names), steps=c.get("steps-compared", 0))
    return res


def rename(t, back):
    """the default names of vehicles are the engine's own: not part of the answer"""
    if "name" in t[1]:
        i = t[1].index("name")
        for row in t[2]:
            row[i] = back.get(row[i], row[i])


def calls(A, B, names, both, r, P, mid=False):
    ts = [-A.DELTAT, 0, A.DELTAT * 0.5, A.TIME * r.random(), A.TIME - A.DELTAT, A.TIME, A.TIME + 3 * A.DELTAT, A.TMAX * 2, r.uniform(0, A.TMAX)]
    odd = A.DELTAT * 64 % 1 != 0
    if odd:     # a time exactly on the border of two steps has no well-defined step in floating point
        ts = [(int(t / A.DELTAT) + 0.5) * A.DELTAT for t in ts]
    for la, lb in r.sample(list(zip(A.LINKS, B.LINKS)), min(3, len(A.LINKS))):
        for f in ("arrival_count", "departure_count", "num_vehicles_t", "average_density", "average_speed", "average_flow", "instant_travel_time", "actual_travel_time", "get_toll"):
            for t in r.sample(ts, 4):
                both(f"{P}link {la.name}.{f}({t})", lambda: getattr(la, f)(t), lambda: getattr(lb, f)(t))
        for t0, t1 in ((0, A.TIME), (A.TIME * r.random() * .5, A.TIME * r.uniform(.5, 1)), (5, 3)):
            for f in () if odd else ("inflow_between", "average_travel_time_between"):
                both(f"{P}link {la.name}.{f}({t0}, {t1})", lambda: getattr(la, f)(t0, t1), lambda: getattr(lb, f)(t0, t1))
        both(f"{P}repr", lambda: repr(la), lambda: repr(lb))
    back = {v.name: v.name for v in A.VEHICLES.values()}
    for i in r.sample(range(len(names)), min(4, len(names))):
        va, vb = list(A.VEHICLES.values())[i], list(B.VEHICLES.values())[i]
        for a in (True, False):
            for d in (True, False):
                both(f"{P}{va.name}.traveled_route({a}, {d})", lambda: va.traveled_route(a, d), lambda: vb.traveled_route(a, d))
        for t in [-1] + r.sample(list(va.log_t), min(3, len(va.log_t))):
            both(f"{P}{va.name}.get_xy_coords({t})", lambda: va.get_xy_coords(t), lambda: vb.get_xy_coords(t))
        for f in ("log_t", "log_x", "log_v", "log_state", "log_link", "log_lane", "log_s", "log_t_link", "links_prefer", "links_avoid"):
            both(f"{P}{va.name}.{f}", lambda: getattr(va, f), lambda: getattr(vb, f))
        for f in ("leader", "follower"):
            both(f"{P}{va.name}.{f}", lambda: getattr(va, f).id if getattr(va, f) is not None else None, lambda: getattr(vb, f).id if getattr(vb, f) is not None else None)
    x, y = r.uniform(-1, 6), r.uniform(-1, 6)
    both(f"{P}get_nearest_node({x}, {y})", lambda: A.get_nearest_node(x, y), lambda: B.get_nearest_node(x, y))
    both(f"{P}get_nodes_in_area({x}, {y}, 2)", lambda: A.get_nodes_in_area(x, y, 2), lambda: B.get_nodes_in_area(x, y, 2))
    for t in ts:
        both(f"{P}on_time({t})", lambda: A.on_time(t), lambda: B.on_time(t))
    ls = [l.name for l in A.LINKS]
    r.shuffle(ls)
    for q in ([ls[0]], ls[:2], [], ["nope"], ls[:3]):
        both(f"{P}defRoute({q})", lambda: A.defRoute(q), lambda: B.defRoute(q))
        if not odd or len(q) == 1:
            t0 = r.choice(ts)
            both(f"{P}defRoute({q}).actual_travel_time({t0})", lambda: A.defRoute(q).actual_travel_time(t0, return_details=True), lambda: B.defRoute(q).actual_travel_time(t0, return_details=True))
    if not mid and not odd:
        externalities(A, B, both, r, P)
    if not mid:
        k = r.randint(1, max(1, len(A.NODES) - 1))
        a, b = A.NODES[:k], B.NODES[:k]
        a2, b2 = A.NODES[k:] or a, B.NODES[k:] or b
        both(f"{P}area_to_pandas", lambda: A.analyzer.area_to_pandas([a], ["a"]), lambda: B.analyzer.area_to_pandas([b], ["a"]))
        both(f"{P}areas2areas_to_pandas", lambda: A.analyzer.areas2areas_to_pandas([a, a2], ["a", "c"]), lambda: B.analyzer.areas2areas_to_pandas([b, b2], ["a", "c"]))
        both(f"{P}vehicle_groups_to_pandas", lambda: A.analyzer.vehicle_groups_to_pandas([list(A.VEHICLES.values())[:5]], ["g"]), lambda: B.analyzer.vehicle_groups_to_pandas([list(B.VEHICLES.values())[:5]], ["g"]))


def externalities(A, B, both, r, P):
    """estimates of the externality of a further vehicle; where the Python estimate says that it ran over the end of the records there is nothing to compare"""
    import warnings
    from uxsim.Utilities import estimate_congestion_externality_route as ext
    for _ in range(4):
        l = r.choice(A.LINKS)
        route = [l.name]
        while r.random() < 0.6 and l.end_node.outlinks:
            l = r.choice(list(l.end_node.outlinks.values()))
            route.append(l.name)
        for _ in range(6):
            t = r.uniform(0, A.TMAX * 0.9)
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                x = call(lambda: ext(A, A.defRoute(route), t))
            if any("Error at" in str(w.message) for w in ws):
                continue
            if x[0] == "ok" and x[1]:
                both(f"{P}congestion externality of {route} at {t} (non-zero)", lambda: ext(A, A.defRoute(route), t), lambda: ext(B, B.defRoute(route), t))
            else:
                both(f"{P}congestion externality of {route} at {t}", lambda: ext(A, A.defRoute(route), t), lambda: ext(B, B.defRoute(route), t))


def misuse(A, B, both, r):
    """requests that must be refused by both, and the state after them"""
    n0, n1 = r.sample([n.name for n in A.NODES], 2)
    l0 = r.choice(A.LINKS).name
    nm = lambda o: o if isinstance(o, (str, int, float)) or o is None else o.name
    for what, f in (
            ("get_node unknown", lambda W: nm(W.get_node("nope"))), ("get_node", lambda W: nm(W.get_node(n0))), ("get_node None", lambda W: nm(W.get_node(None))), ("get_node object", lambda W: nm(W.get_node(W.NODES[-1]))),
            ("get_link unknown", lambda W: nm(W.get_link("nope"))), ("get_link", lambda W: nm(W.get_link(l0))), ("get_link None", lambda W: nm(W.get_link(None))), ("get_link object", lambda W: nm(W.get_link(W.LINKS[-1]))),
            ("get_node number", lambda W: nm(W.get_node(3))), ("get_link number", lambda W: nm(W.get_link(3))),
            ("addNode duplicate", lambda W: nm(W.addNode(n0, 0, 0))), ("addLink duplicate", lambda W: nm(W.addLink(l0, n0, n1, 100))), ("addLink unknown node", lambda W: nm(W.addLink("zz", "nope", n1, 100))),
            ("addLink zero speed", lambda W: nm(W.addLink("zz4", n0, n1, 100, free_flow_speed=0))),
            ("adddemand without flow", lambda W: W.adddemand(n0, n1, 0, 10)), ("adddemand unknown", lambda W: W.adddemand(n0, "nope", 0, 10, 0.1)), ("adddemand reversed", lambda W: W.adddemand(n0, n1, 10, 0, 0.1)),
            ("addVehicle unknown", lambda W: nm(W.addVehicle("nope", n1, 0))), ("addVehicle", lambda W: nm(W.addVehicle(n0, n1, 0, name="dupl"))), ("addVehicle duplicate", lambda W: nm(W.addVehicle(n0, n1, 0, name="dupl"))),
            ("addVehicle step", lambda W: W.addVehicle(n0, n1, 3, departure_time_is_time_step=1).departure_time), ("addVehicle unknown preference", lambda W: nm(W.addVehicle(n0, n1, 0, links_prefer=["nope"]))),
            ("addVehicle unknown avoidance", lambda W: nm(W.addVehicle(n0, n1, 0, links_avoid=["nope"])))):
        both(what, lambda: f(A), lambda: f(B))
        both(what + ", then the world", lambda: [len(A.NODES), len(A.LINKS), sorted(n.name for n in A.NODES) == sorted(set(n.name for n in A.NODES))], lambda: [len(B.NODES), len(B.LINKS), sorted(n.name for n in B.NODES) == sorted(set(n.name for n in B.NODES))])
    if A.VEHICLES:
        i = r.randrange(len(A.VEHICLES) - 2) if len(A.VEHICLES) > 3 else 0
        va, vb = list(A.VEHICLES.values())[i], list(B.VEHICLES.values())[i]
        for f in ("enforce_route", "set_links_prefer", "set_links_avoid"):
            both(f, lambda: getattr(va, f)(["nope"]), lambda: getattr(vb, f)(["nope"]))
