"""P25 DTA solvers: every day of a real solve is recomputed from the simulated worlds - who could gain, who changed to what, what was reported, and which world is returned."""
import copy, hashlib, math, random, warnings
from collections import defaultdict
import numpy as np
from vmon import scen, env

TECHNIQUE = "trace monitor of whole solver runs: func_World hands out instrumented worlds, and after each solve every iteration's routes, costs, swaps, gaps and tables are recomputed independently from the worlds' recorded link travel times and vehicle histories; search logs of ALNS and GA are replayed"
LEVEL_NOTE = "Exploration of sampled networks, demands, solver parameters and random streams; every vehicle of every iteration is judged."
ASSUME = ["the congestion externality of the system-optimal solver is the queue-based estimate of Utilities (number of vehicles entering behind in the same queue times the headway consumed)",
          "costs within 1e-9 (relative) are considered equal", "quality of convergence is not judged beyond what is stated"]
RULE = ("Networks by seed (grids, two-route, random, rings, merges) with tolls, 20-120 platoons, enumerated or user-given route sets, swap probabilities from 0 to 1 or fixed numbers of swaps, both engines for the day-to-day solvers; ALNS and GA in the Python engine. "
        "Non-trivial: at least one vehicle could have gained by changing route; distinct by the hash of the route log.")
REQUIRED = ["solves-due", "solves-dso", "solves-alns", "solves-ga", "iterations", "vehicle-days", "swaps-possible", "swaps-made", "swap-to-cheapest", "kept-routes", "given-route-sets", "forced-into-set", "tolled-solves", "unfinished-vehicle-days",
            "swap-num", "prob-0", "prob-1", "cpp-solves", "externality-positive", "best-world-not-last", "alns-evaluations", "alns-accepted", "alns-rejected", "simultaneous-departures", "alns-from-initial", "ga-generations", "route-sets-judged", "solver-type-errors", "repeat-runs"]
BUDGET = dict(quick=60, thorough=700)
MIX = [("grid", 4), ("tworoute", 3), ("random", 4), ("ring", 1), ("merge", 1), ("diverge", .5), ("corridor", .7)]


def jobs(tier, seed):
    n = 700 if tier == "quick" else 8000
    base = seed * 1_000_003 + 25 * 20_011
    out = []
    for i in range(n):
        kind = ["due", "dso", "due", "dso", "dso", "due", "alns", "ga"][i % 8]
        cpp = kind in ("due", "dso") and (i // 8 + i) % 2 == 0
        out.append(dict(seed=(base + i) % (1 << 31), cpp=cpp, so="plain" if cpp else None, kind=kind, timeout=240,
                        opts=dict(mix=MIX, max_platoons=[30, 60, 90][i % 3], steps=[60, 100][i % 2], no_closed=True, vehicles=False, load=[.6, 1.2, 2.5][i // 2 % 3])))
    return out


def make_spec(job, r):
    spec = scen.generate(job["seed"], **job["opts"])
    w = spec["world"]
    h = w["tmax"]
    w["tmax"] = h * r.choice([1, 2.5, 2.5, 4, 4]) if job["kind"] in ("due", "dso") else h * r.choice([1.5, 3])
    w.pop("vehicle_logging_timestep_interval", None)
    spec["events"] = []
    if job["kind"] == "alns" and job["seed"] % 9 == 0:      # most links unused
        L = lambda n, a, b, x: dict(name=n, start=a, end=b, length=x, free_flow_speed=20, number_of_lanes=1)
        spec.update(topo="detour", nodes=[dict(name=n, x=0, y=i) for i, n in enumerate("omxdyz")],
                    links=[L("a", "o", "m", 500), L("b", "m", "d", 500), L("c", "o", "x", 4000), L("e", "x", "d", 4000), L("f", "o", "y", 5000), L("g", "y", "z", 5000), L("h", "z", "d", 5000)],
                    demands=[dict(kind="od", orig="o", dest="d", t0=10, t1=10 + h * .5, flow=.15)], vehicles=[])
        w["tmax"] = h * .5 + 2500
        return spec
    for n in spec["nodes"]:
        n.pop("flow_capacity", None) if r.random() < .5 else None
    if job["kind"] in ("alns", "ga") and r.random() < .15:      # everybody departs at once
        ods = list(dict.fromkeys((d["orig"], d["dest"]) for d in spec["demands"] if d["kind"] == "od"))
        if ods:
            spec["demands"] = []
            spec["vehicles"] = [dict(orig=o, dest=d, t=0) for o, d in (r.choice(ods) for _ in range(r.randint(6, 20)))]
    return spec


# ---------------------------------------------------------------- independent costs
class Day:
    """what one simulated world recorded"""

    def __init__(s, W, cpp):
        s.W, s.cpp, s.dt = W, cpp, W.DELTAT
        s.tt, s.toll, s.ca, s.cd, s.ff = {}, {}, {}, {}, {}
        for l in W.LINKS:
            s.tt[l.name] = [float(x) for x in l.traveltime_actual]
            s.ca[l.name] = [float(x) for x in l.cum_arrival]
            s.cd[l.name] = [float(x) for x in l.cum_departure]
            s.ff[l.name] = (l.length / l.free_flow_speed)
            s.toll[l.name] = l.congestion_pricing
        s.n = W.TSIZE
        s.veh = {}
        for nm, v in W.VEHICLES.items():
            rt, ts = v.traveled_route()
            s.veh[nm] = (v.orig.name, v.dest.name, v.state, [x.name for x in rt.links], [float(x) for x in ts])

    def k(s, t):
        return int(t / s.dt) if s.cpp else int(t // s.dt)

    def link_tt(s, l, t):
        a = s.tt[l]
        return a[min(max(s.k(t), 0), len(a) - 1)]

    def link_toll(s, l, t):
        f = s.toll[l]
        if f is None:
            return 0.0
        if s.cpp:
            t = min(max(int(t / s.dt), 0), s.n - 1) * s.dt
        return float(f(t))

    def due(s, route, t0, seen=None):
        t, c = t0, 0.0
        for i, l in enumerate(route):
            c += s.link_toll(l, seen[i] if seen else t)
            x = s.link_tt(l, t)
            c += x
            t += x
        return c

    def ext(s, l, t):
        k = int(t / s.dt)
        tt, ca, cd = s.tt[l], s.ca[l], s.cd[l]
        n = len(tt)
        if not s.cpp:
            try:
                e = k
                for i in range(k, n):
                    j = i + int(tt[i] / s.dt)
                    if tt[i] > s.ff[l] * 1.01 and ca[j] - cd[j] > 0:
                        e = i
                    else:
                        break
                behind = ca[e] - ca[k]
                out = k + int(tt[k] / s.dt) + 1
                lead = out
                for i in range(out, 0, -1):
                    if cd[i] < cd[out]:
                        lead = i
                        break
                return (out - lead) * s.dt * behind
            except IndexError:      # out of the horizon: no estimate
                return 0.0
        e = k
        for i in range(k, n):
            j = i + int(tt[i] / s.dt)
            if j >= n:
                break
            if tt[i] > s.ff[l] * 1.01 and ca[j] - cd[j] > 0:
                e = i
            else:
                break
        if k >= n:
            return 0.0
        behind = ca[e] - ca[k]
        out = min(k + int(tt[k] / s.dt) + 1, n - 1)
        lead = out
        for i in range(out, 0, -1):
            if cd[i] < cd[out]:
                lead = i
                break
        return (out - lead) * s.dt * behind

    def dso(s, route, t0, c):
        t, cost, ext = t0, 0.0, 0.0
        for l in route:
            e = s.ext(l, t)
            ext += e
            x = s.link_tt(l, t)
            cost += x
            t += x
        if ext > 0:
            c["externality-positive"] += 1
        return cost + ext

    def fresh(s):
        """a fresh analysis of this world"""
        from uxsim.analyzer import Analyzer
        old = s.W.analyzer
        try:
            a = Analyzer(s.W)
            s.W.analyzer = a
            a.basic_analysis()
            return dict(all=int(a.trip_all), done=int(a.trip_completed), ttt=float(a.total_travel_time), att=float(a.average_travel_time)), a.link_to_pandas(), a
        finally:
            s.W.analyzer = old


def near(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_table(a, b):
    if list(a.columns) != list(b.columns) or len(a) != len(b):
        return False
    for x, y in zip(a.values.tolist(), b.values.tolist()):
        for p, q in zip(x, y):
            if isinstance(p, str) or isinstance(q, str):
                if p != q:
                    return False
            elif not (near(float(p), float(q)) or (p != p and q != q)):
                return False
    return True


def connected(spec, route, o, d):
    L = {l["name"]: l for l in spec["links"]}
    at = o
    for x in route:
        if x not in L or L[x]["start"] != at:
            return False
        at = L[x]["end"]
    return at == d and bool(route)


def free_paths(spec, ods):
    """{(o, d)} reachable"""
    adj = scen.adjacency(spec)
    ok = set()
    for o in {a for a, _ in ods}:
        seen, todo = {o}, [o]
        while todo:
            for l in adj.get(todo.pop(), []):
                if l["end"] not in seen:
                    seen.add(l["end"])
                    todo.append(l["end"])
        ok |= {(o, d) for d in seen if d != o}
    return ok


class Judge:
    def __init__(s, job, spec, r):
        s.job, s.spec, s.r = job, spec, r
        s.v, s.c = [], defaultdict(int)
        s.worlds = []

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg))

    def func(s):
        W = scen.build_world(s.spec, s.job["cpp"])
        s.worlds.append(W)
        return W


def route_set_ok(J, sets, ods, k, given):
    reach = free_paths(J.spec, ods)
    for o, d in ods:
        if (o, d) not in reach:
            continue
        rs = [list(x) for x in sets[o, d]] if (o, d) in sets else []
        J.c["route-sets-judged"] += 1
        if given is not None:
            if rs != given[o, d]:
                J.bad("given-route-set", f"route set {o}->{d} was given as {given[o, d]} but {rs} is used")
            continue
        if not rs or len(rs) > max(k, 1) or len({tuple(x) for x in rs}) != len(rs):
            J.bad("route-set", f"{len(rs)} routes ({len({tuple(x) for x in rs})} different) for {o}->{d}, at most {k} were asked for")
        for x in rs:
            if not connected(J.spec, x, o, d):
                J.bad("route-set", f"route {x} of the set for {o}->{d} does not lead from {o} to {d}")


def gen_sets(J, ods, r):
    out = {}
    for o, d in ods:
        rs = []
        for _ in range(r.randint(1, 5)):
            p = scen.random_path(J.spec, r, o, d, maxlen=12)
            if p and list(p) not in rs:
                rs.append(list(p))
        if not rs:
            return None
        out[o, d] = rs
    return out


def d2d(job, J, r):
    u = env.uxsim()
    import uxsim.DTAsolvers as D
    from uxsim.DTAsolvers import DTAsolvers as DD
    c, kind, cpp = J.c, job["kind"], job["cpp"]
    probe = scen.build_world(J.spec, cpp)
    ods = list(dict.fromkeys((v.orig.name, v.dest.name) for v in probe.VEHICLES.values()))
    if not ods:
        return
    given = None
    kw = dict(n_routes_per_od=r.choice([1, 2, 4, 10]))
    if r.random() < .4:
        given = gen_sets(J, ods, r)
        if given is not None:
            byobj = r.random() < .3
            kw["route_sets"] = {((o, d) if not byobj else (probe.get_node(o), probe.get_node(d))): copy.deepcopy(x) for (o, d), x in given.items()} if not byobj or not cpp else {(o, d): copy.deepcopy(x) for (o, d), x in given.items()}
            c["given-route-sets"] += 1
    p = r.choice([0, .05, .3, .6, 1, 1])
    kw["swap_prob"] = p
    nswap = None
    if kind == "dso" and r.random() < .35:
        nswap = r.randint(0, len(probe.VEHICLES))
        kw["swap_num"] = nswap
        c["swap-num"] += 1
    iters = r.choice([1, 2, 3, 4, 6])
    cls = DD.SolverDUE if kind == "due" else DD.SolverDSO_D2D
    if r.random() < .1:
        try:
            cls(lambda: scen.build_world(J.spec, False), cpp=True).solve(1, print_progress=False)
            J.bad("engine-mismatch", "the solver with cpp=True accepted a world of the Python engine")
        except ValueError:
            c["solver-type-errors"] += 1
    sd = r.randrange(1 << 30)
    random.seed(sd)
    np.random.seed(sd & 0xffffffff)
    S = cls(J.func, cpp=cpp)
    W_ret = S.solve(iters, print_progress=r.random() < .3, **kw)
    c["solves-" + kind] += 1
    c["cpp-solves"] += cpp
    worlds = J.worlds[1:]
    if len(worlds) != iters:
        J.bad("iterations", f"{len(worlds)} simulations for {iters} iterations")
        return
    for nm in ("ttts", "n_swaps", "potential_swaps", "t_gaps", "route_log", "cost_log", "dfs_link"):
        if len(getattr(S, nm)) != iters:
            J.bad("logs", f"{nm} has {len(getattr(S, nm))} entries for {iters} iterations")
            return
    days = [Day(W, cpp) for W in worlds]
    sets = worlds[0].dict_od_to_routes
    route_set_ok(J, sets, ods, kw["n_routes_per_od"], given)
    names0 = list(probe.VEHICLES)
    tolled = any(l.get("toll") for l in J.spec["links"])
    c["tolled-solves"] += tolled
    tot_pot = 0
    expect = None
    finished_all, fresh = [], []
    for i, dy in enumerate(days):
        c["iterations"] += 1
        if list(dy.veh) != names0 or any((v.orig.name, v.dest.name, v.departure_time_in_second) != (q.orig.name, q.dest.name, q.departure_time_in_second) for v, q in zip(worlds[i].VEHICLES.values(), probe.VEHICLES.values())):
            J.bad("same-demand", f"the vehicles of iteration {i} are not those of func_World()")
            return
        st, tab, an = dy.fresh()
        fresh.append((st, tab, an))
        finished_all.append(st["all"] == st["done"])
        if S.ttts[i] != int(st["ttt"]):
            J.bad("total-travel-time", f"ttts[{i}] = {S.ttts[i]} but the vehicles of that iteration travelled {st['ttt']}")
        if not same_table(S.dfs_link[i], tab):
            J.bad("link-table", f"dfs_link[{i}] differs from the link table of that iteration's world")
        for lg in (S.route_log[i], S.cost_log[i]):
            if list(lg) != names0:
                J.bad("logs", f"log of iteration {i} lists {len(lg)} vehicles of {len(names0)}")
                return
        lo = hi = 0            # possible number of platoons that could gain
        gap_sum = 0.0
        gap_slack = 0.0
        spec_next = {}
        for nm, (o, d, state, rt, ts) in dy.veh.items():
            c["vehicle-days"] += 1
            if S.route_log[i][nm] != rt:
                J.bad("route-log", f"route_log[{i}][{nm}] = {S.route_log[i][nm]} but it travelled {rt}")
            if state != "end":
                c["unfinished-vehicle-days"] += 1
                continue
            if not connected(J.spec, rt, o, d):
                J.bad("route-connected", f"iteration {i}: {nm} travelled {rt} from {o} to {d}")
                continue
            tt = ts[-1] - ts[0]
            if not near(S.cost_log[i][nm], tt):
                J.bad("cost-log", f"cost_log[{i}][{nm}] = {S.cost_log[i][nm]} but it entered at {ts[0]} and arrived at {ts[-1]}")
            rs = [list(x) for x in sets[o, d]] if (o, d) in sets else []
            if given is not None and rt not in rs:
                spec_next[nm] = ("force", rs[0], None)
                c["forced-into-set"] += 1
                continue
            if kind == "due":
                c0 = dy.due(rt, ts[0], ts)
                alts = [dy.due(x, ts[0]) for x in rs]
            else:
                c0 = dy.dso(rt, ts[0], c)
                alts = [dy.dso(x, ts[0], c) for x in rs]
            m = min(alts, default=math.inf)
            tol = 1e-9 * max(1, abs(c0))
            if m < c0 - tol:
                lo += 1
                hi += 1
                gap_sum += c0 - m
                c["swaps-possible"] += 1
                spec_next[nm] = ("choice", rt, [rs[j] for j in range(len(rs)) if alts[j] <= m + tol])
            elif m < c0 + tol:
                hi += 1
                gap_slack += tol
                spec_next[nm] = ("choice", rt, [rs[j] for j in range(len(rs)) if alts[j] <= m + tol])
            else:
                spec_next[nm] = ("keep", rt, None)
        dn = worlds[i].DELTAN
        pot, ns = S.potential_swaps[i], S.n_swaps[i]
        if not (lo * dn <= pot <= hi * dn) or pot % dn:
            J.bad("potential-swaps", f"{kind} iteration {i}: {pot} vehicles could gain according to the solver, {lo * dn} (to {hi * dn}) according to the recorded travel times")
        g = gap_sum / len(names0)
        if abs(S.t_gaps[i] - g) > 1e-7 * max(1, g) + gap_slack:
            J.bad("gap", f"{kind} iteration {i}: time gap {S.t_gaps[i]}, but chosen and minimum-cost routes differ by {g} per vehicle")
        if not 0 <= ns <= pot or ns % dn:
            J.bad("swap-count", f"{kind} iteration {i}: {ns} vehicles changed, {pot} could gain")
        if nswap is not None:
            if ns > nswap * dn:
                J.bad("swap-num", f"iteration {i}: {ns} vehicles changed, at most {nswap} platoons of {dn} were allowed")
            if nswap == len(names0) and ns != pot:
                J.bad("swap-num", f"iteration {i}: {ns} of {pot} vehicles changed although all may change")
        elif p == 0:
            c["prob-0"] += 1
            if ns:
                J.bad("swap-probability", f"iteration {i}: {ns} vehicles changed with probability 0")
        elif p == 1:
            c["prob-1"] += 1
            if ns != pot:
                J.bad("swap-probability", f"iteration {i}: {ns} of {pot} vehicles changed with probability 1")
        else:
            n_, k_ = pot // dn, ns // dn
            if n_ and _tail(int(n_), int(k_), p) < 1e-10:
                J.bad("swap-probability", f"iteration {i}: {k_} of {n_} platoons changed with probability {p}")
        # what the next day does with it
        if i + 1 < iters:
            nx = days[i + 1]
            changed = unknown = 0
            for nm, (how, rt, best) in spec_next.items():
                _, _, st2, r2, _ = nx.veh[nm]
                full = st2 == "end"

                def fits(x):
                    return r2 == x if full else r2 == x[:len(r2)]
                if how == "keep" or how == "force":
                    if not fits(rt):
                        J.bad("route-kept" if how == "keep" else "forced-into-set", f"{kind} iteration {i + 1}: {nm} travels {r2}" + (f" although nothing in its route set was cheaper than its {rt}" if how == "keep" else f" although it has to take {rt}, the first of its given route set"))
                    c["kept-routes"] += how == "keep"
                else:
                    k1, k2 = fits(rt), any(fits(x) for x in best)
                    if not k1 and not k2:
                        J.bad("swap-to-cheapest", f"{kind} iteration {i + 1}: {nm} changed from {rt} to {r2}, the cheapest were {best}")
                    elif k2 and not k1:
                        changed += 1
                        c["swap-to-cheapest"] += 1
                    elif k1 and k2:
                        unknown += 1
            c["swaps-made"] += changed
            if not (changed * dn <= ns <= (changed + unknown) * dn):
                J.bad("swap-count", f"{kind} iteration {i}: {ns} vehicles changed according to the solver, {changed * dn} (to {(changed + unknown) * dn}) did")
        tot_pot += lo
    # which world is the solution
    if S.W_sol is not W_ret:
        J.bad("solution", "solve() does not return W_sol")
    if kind == "due":
        if W_ret is not worlds[-1] or S.W_intermid_solution is not worlds[-1]:
            J.bad("solution", "the user equilibrium solution is not the world of the last iteration")
        bi = iters - 1
    else:
        cand = [i for i in range(iters) if finished_all[i]]
        bi = min(cand, key=lambda i: fresh[i][0]["att"]) if cand else None
        if bi is None:
            if W_ret is not None:
                J.bad("solution", "no iteration completed all trips, but a world is returned")
        else:
            j = next((i for i in range(iters) if worlds[i] is W_ret), None)
            if j is None or not finished_all[j] or fresh[j][0]["att"] > fresh[bi][0]["att"] + 1e-9:
                J.bad("solution", f"the returned world is of iteration {j} (average travel time {fresh[j][0]['att'] if j is not None else None}), but iteration {bi} is best ({fresh[bi][0]['att']})")
            c["best-world-not-last"] += bi != iters - 1
            bi = j
    if bi is not None:
        a = W_ret.analyzer
        st = fresh[bi][0]
        if (int(a.trip_all), int(a.trip_completed)) != (st["all"], st["done"]) or not near(float(a.total_travel_time), st["ttt"]) or not near(float(a.average_travel_time), st["att"]):
            J.bad("solution-analyzer", f"the solution's analyzer reports {a.trip_completed}/{a.trip_all}, {a.total_travel_time} s, its vehicles {st}")
        if a.W is not W_ret:
            J.bad("solution-analyzer", "the solution's analyzer belongs to another world")
        else:
            if not same_table(a.link_to_pandas(), fresh[bi][1]) or not same_table(a.od_to_pandas(), fresh[bi][2].od_to_pandas()) or not same_table(a.basic_to_pandas(), fresh[bi][2].basic_to_pandas()):
                J.bad("solution-analyzer", "tables of the solution differ from those of a fresh analysis of the same world")
        if W_ret.dict_od_to_routes is not sets and dict(W_ret.dict_od_to_routes) != dict(sets):
            J.bad("solution", "dict_od_to_routes of the solution is not the route set used")
    # dict_od_to_routes is an ordinary mapping
    if isinstance(sets, dict) and len(list(sets)) and not (len(sets) == len(list(sets.keys())) == len(list(sets.items())) and all(k in sets and sets.get(k) == sets[k] for k in sets)):
        J.bad("route-set", "dict_od_to_routes is not a consistent mapping")
    if r.random() < .15:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import matplotlib.pyplot as plt
            S.plot_convergence()
            S.plot_link_stats()
            if W_ret is not None:
                S.plot_vehicle_stats()
                S.plot_vehicle_stats(*ods[0])
            plt.close("all")
    if r.random() < .2:
        c["repeat-runs"] += 1
        random.seed(sd)
        np.random.seed(sd & 0xffffffff)
        if given is not None:
            kw["route_sets"] = copy.deepcopy(given)
        S2 = cls(lambda: scen.build_world(J.spec, cpp), cpp=cpp)
        S2.solve(iters, print_progress=False, **kw)
        if S2.route_log != S.route_log or S2.ttts != S.ttts or S2.n_swaps != S.n_swaps:
            J.bad("reproducible", "the same seed gives another solution")
    J.sig = hashlib.blake2b(repr(S.route_log).encode(), digest_size=8).hexdigest() if tot_pot else None


def _tail(n, k, p):
    """two-sided binomial tail probability of k (smaller side)"""
    def pm(j):
        return math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1) + j * math.log(p) + (n - j) * math.log(1 - p))
    lo = sum(pm(j) for j in range(0, k + 1))
    hi = sum(pm(j) for j in range(k, n + 1))
    return min(lo, hi)


def objective(dy):
    st, tab, an = dy.fresh()
    return float(st["ttt"]) + (st["all"] - st["done"]) * dy.W.TMAX, st, tab


def log_ok(J, dy, rl, cl, what):
    exp_r = {nm: v[3] for nm, v in dy.veh.items() if v[2] == "end"}
    exp_c = {nm: v[4][-1] - v[4][0] for nm, v in dy.veh.items() if v[2] == "end"}
    if rl != exp_r:
        J.bad("route-log", f"{what}: route log differs from the routes travelled")
    if cl != exp_c:
        J.bad("cost-log", f"{what}: cost log differs from the travel times")


def init_world(J, r):
    import uxsim.DTAsolvers as D
    from uxsim.DTAsolvers import DTAsolvers as DD
    S = DD.SolverDUE(lambda: scen.build_world(J.spec, False))
    return S.solve(2, n_routes_per_od=r.choice([2, 4]), swap_prob=.3, print_progress=False)


def alns(job, J, r):
    env.uxsim()
    from uxsim.DTAsolvers import DTAsolvers as DD
    from uxsim.DTAsolvers import ALNS
    c = J.c
    probe = scen.build_world(J.spec, False)
    if not probe.VEHICLES:
        return
    ods = list(dict.fromkeys((v.orig.name, v.dest.name) for v in probe.VEHICLES.values()))
    if set(ods) - free_paths(J.spec, ods):
        return
    sd = r.randrange(1 << 30)
    random.seed(sd)
    np.random.seed(sd & 0xffffffff)
    kw = dict(k_max=r.choice([None, 1, 3, 8]), k_min=r.choice([None, 1, 2]), p0=r.choice([.2, .05, .5]), trials=r.choice([2, 4, 50]), always_accept=r.random() < .15)
    if r.random() < .4:
        kw["repair_set"] = r.choice([["random"], ["min_cost"], ["min_cost", "random"]])
        kw["destroy_set"] = r.choice([["random"], ["segment"], ["early_dep", "late_dep"], ["congest_link"], ["congest_link", "random"]])
    W0 = None
    if r.random() < .6:
        W0 = init_world(J, r)
        kw["initial_solution_World"] = W0
        c["alns-from-initial"] += 1
    iters = r.choice([4, 8, 12])
    nr = r.choice([1, 3, 6])
    S = DD.SolverDSO_ALNS(J.func)
    seen_dom = []
    real_init = ALNS.init_alns

    def spy(x, obj, **k):
        stt = real_init(x, obj, **k)
        seen_dom.append((list(x), [list(d) for d in k["domains"]], stt))
        return stt
    ALNS.init_alns = spy
    try:
        W_ret = S.solve(iters, n_routes_per_od=nr, print_progress=r.random() < .3, **kw)
    finally:
        ALNS.init_alns = real_init
    c["solves-alns"] += 1
    c["simultaneous-departures"] += not J.spec["demands"]
    evals = J.worlds[1:] if W0 is None else J.worlds
    x0, dom, state = seen_dom[0]
    sets = (W0 or J.worlds[0]).dict_od_to_routes
    route_set_ok(J, sets, ods, 4 if W0 is not None else nr, None)
    vl = list(probe.VEHICLES.values())
    for i, v in enumerate(vl):
        n = len(sets[v.orig.name, v.dest.name])
        if dom[i] != list(range(n)) or not x0[i] in dom[i] or not S.xx_star[i] in dom[i]:
            J.bad("domain", f"vehicle {v.name} has {n} routes; domain {dom[i]}, initially {x0[i]}, finally {S.xx_star[i]}")
            break
    if W0 is not None:
        d0 = Day(W0, False)
        for i, (nm, (o, d, stt, rt, ts)) in enumerate(d0.veh.items()):
            rs = [list(x) for x in sets[o, d]]
            if stt == "end" and rt in rs:
                if rs[x0[i]] != rt:
                    J.bad("initial-solution", f"{nm} travelled {rt} in the given initial solution, but starts with {rs[x0[i]]}")
            else:
                t0 = vl[i].departure_time_in_second
                cs = [sum_tt(d0, x, t0) for x in rs]
                if cs[x0[i]] > min(cs) + 1e-9 and not (rt in rs and rs[x0[i]] == rt):
                    J.bad("initial-solution", f"{nm} has no known route in the initial solution and starts with a route of {cs[x0[i]]} s, the shortest takes {min(cs)} s")
    run = S.run
    total = iters
    tr = kw["trials"] if total > kw["trials"] else int(total * .5)
    if len(evals) != 1 + iters or len(run.steps) != iters - tr:
        J.bad("evaluations", f"{len(evals)} simulations and {len(run.steps)} steps for {iters} iterations with {tr} trials")
        return
    objs = []
    for i, W in enumerate(evals):
        dy = Day(W, False)
        o, st, tab = objective(dy)
        objs.append(o)
        c["alns-evaluations"] += 1
        if S.ttts[i] != int(st["ttt"]):
            J.bad("total-travel-time", f"evaluation {i}: {S.ttts[i]} reported, {st['ttt']} travelled")
        if not same_table(S.dfs_link[i], tab):
            J.bad("link-table", f"dfs_link[{i}] differs from the link table of that evaluation's world")
        log_ok(J, dy, S.route_log[i], S.cost_log[i], f"evaluation {i}")
        for nm, (a, b, stt, rt, ts) in dy.veh.items():
            if not any(rt == list(x)[:len(rt)] if stt != "end" else rt == list(x) for x in sets[a, b]):
                J.bad("route-of-set", f"evaluation {i}: {nm} travels {rt}, not in its route set {sets[a, b]}")
                break
        if i == 0 and any(v_differs(dy, nm, sets[v.orig.name, v.dest.name][x0[k]]) for k, (nm, v) in enumerate(probe.VEHICLES.items())):
            J.bad("solution-vector", "the initial vector is not what the first evaluation simulates")
    # replay of the search
    cur, best = objs[0], objs[0]
    prevT = math.inf
    kmax = state.k_max
    uses = defaultdict(int)
    for j, stp in enumerate(run.steps):
        cand = objs[1 + tr + j]
        if not near(stp.delta_obj, cand - cur, 1e-7):
            J.bad("search-log", f"step {j}: change of the objective {stp.delta_obj}, but {cand} was simulated after {cur}")
        if stp.accepted:
            cur = cand
            c["alns-accepted"] += 1
        else:
            c["alns-rejected"] += 1
            if (cand <= cur or kw["always_accept"]) and stp.changed_idx:
                J.bad("search-log", f"step {j}: a candidate of {cand} (current {cur}) is not accepted")
        best = min(best, cur)
        if not near(stp.obj_val, cur, 1e-7) or not near(stp.best_obj, best, 1e-7):
            J.bad("search-log", f"step {j}: current {stp.obj_val} and best {stp.best_obj} are logged, {cur} and {best} were simulated")
        if stp.temperature > prevT + 1e-12:
            J.bad("search-log", f"step {j}: temperature rises to {stp.temperature}")
        prevT = stp.temperature
        if stp.changed_idxs != len(stp.changed_idx) or len(stp.changed_idx) > kmax or any(not 0 <= q < len(vl) for q in stp.changed_idx):
            J.bad("search-log", f"step {j}: {stp.changed_idx} changed, at most {kmax} of {len(vl)} may")
        uses[stp.move] += 1
    if not near(run.best_obj, best, 1e-7) or list(run.best_x) != list(S.xx_star):
        J.bad("solution-vector", f"best objective {run.best_obj}, simulated {best}")
    ops = {k: set(run.operator_stats[k]) for k in ("destroy", "repair")}
    for mv in uses:
        a, b = mv.split("+")
        if a[2:] not in ops["destroy"] or b[2:] not in ops["repair"] or ("destroy_set" in kw and (a[2:] not in kw["destroy_set"] or b[2:] not in kw["repair_set"])):
            J.bad("search-log", f"operator {mv} was not to be used")
    # the best vector really gives the best objective
    W = scen.build_world(J.spec, False)
    for k, v in enumerate(W.VEHICLES.values()):
        v.set_links_prefer(list(sets[v.orig.name, v.dest.name][S.xx_star[k]]))
    W.exec_simulation()
    o, st, tab = objective(Day(W, False))
    if not near(o, run.best_obj, 1e-7):
        J.bad("solution-vector", f"xx_star gives an objective of {o}, {run.best_obj} is reported")
    bi = min(range(len(objs)), key=lambda i: objs[i])
    if S.W_sol is not W_ret or not any(W_ret is w for w in evals) or not near(objective(Day(W_ret, False))[0], objs[bi], 1e-9):
        J.bad("solution", f"the returned world has not the least objective {objs[bi]} of all evaluations")
    exp = []
    for i, o in enumerate(objs):
        if not exp or o < exp[-1][1]:
            exp.append((i, o))
    if [x for x, _ in exp] != list(S.best_iter) or any(not near(a, b, 1e-7) for (_, a), b in zip(exp, S.best_obj)):
        J.bad("search-log", f"improvements at {S.best_iter} are logged, {[x for x, _ in exp]} happened")
    c["best-world-not-last"] += bi != len(objs) - 1
    if r.random() < .2:
        import matplotlib.pyplot as plt
        S.plot_convergence()
        S.plot_link_stats()
        S.print_solution_process(full=r.random() < .5)
        plt.close("all")
    J.sig = hashlib.blake2b(repr(objs).encode(), digest_size=8).hexdigest()


def sum_tt(dy, route, t):
    z = 0.0
    for l in route:
        x = dy.link_tt(l, t)
        z += x
        t += x
    return z


def v_differs(dy, nm, route):
    o, d, stt, rt, ts = dy.veh[nm]
    return rt != list(route)[:len(rt)]


def ga(job, J, r):
    env.uxsim()
    from uxsim.DTAsolvers import DTAsolvers as DD
    c = J.c
    probe = scen.build_world(J.spec, False)
    ods = list(dict.fromkeys((v.orig.name, v.dest.name) for v in probe.VEHICLES.values()))
    if len(probe.VEHICLES) < 6 or set(ods) - free_paths(J.spec, ods):
        return
    sd = r.randrange(1 << 30)
    random.seed(sd)
    np.random.seed(sd & 0xffffffff)
    pop, el, gens = r.choice([4, 6, 8]), r.choice([0, 1, 2]), r.choice([1, 2, 3])
    nr = r.choice([2, 4])
    kw = dict(mutation_occur_rate=r.choice([.1, .8]), mutation_gene_rate=r.choice([.05, .4]), n_crossover_points=r.choice([1, 2, 3]))
    W0 = None
    if r.random() < .4:
        W0 = init_world(J, r)
        kw["initial_solution_World"] = W0
    S = DD.SolverDSO_GA(J.func)
    W_ret = S.solve(gens, n_routes_per_od=nr, pop_size=pop, elite_size=el, print_progress=r.random() < .3, **kw)
    c["solves-ga"] += 1
    c["simultaneous-departures"] += not J.spec["demands"]
    evals = J.worlds[1:] if W0 is None else J.worlds
    if len(evals) != pop * gens:
        J.bad("evaluations", f"{len(evals)} simulations for {gens} generations of {pop}")
        return
    sets = W_ret.dict_od_to_routes
    route_set_ok(J, sets, ods, 4 if W0 is not None else nr, None)
    prev = None
    for g in range(gens):
        c["ga-generations"] += 1
        days = [Day(W, False) for W in evals[g * pop:(g + 1) * pop]]
        os_ = [objective(dy) for dy in days]
        b = min(range(pop), key=lambda i: os_[i][0])
        ok = [i for i in range(pop) if os_[i][0] == os_[b][0]]
        if prev is not None and el >= 1 and os_[b][0] > prev + 1e-9:
            J.bad("elitism", f"generation {g}: best objective {os_[b][0]} is worse than {prev} before, with {el} elites")
        prev = os_[b][0]
        if not any(S.ttts[g] == int(os_[i][1]["ttt"]) for i in ok):
            J.bad("total-travel-time", f"generation {g}: {S.ttts[g]} reported, the best travelled {os_[b][1]['ttt']}")
        if not any(same_table(S.dfs_link[g], os_[i][2]) for i in ok):
            J.bad("link-table", f"dfs_link[{g}] differs from the link table of the best individual")
        e = {nm: v[3] for nm, v in days[b].veh.items() if v[2] == "end"}
        if len(ok) == 1:
            log_ok(J, days[b], S.route_log[g], S.cost_log[g], f"generation {g}")
        for dy in days:
            for nm, (a, z, stt, rt, ts) in dy.veh.items():
                if not any(rt == list(x)[:len(rt)] if stt != "end" else rt == list(x) for x in sets[a, z]):
                    J.bad("route-of-set", f"generation {g}: {nm} travels {rt}, not in its route set {sets[a, z]}")
                    break
        if g == 0 and W0 is not None:
            d0 = Day(W0, False)
            for nm, (a, z, stt, rt, ts) in d0.veh.items():
                if rt in [list(x) for x in sets[a, z]] and v_differs(days[0], nm, rt):
                    J.bad("initial-solution", f"{nm} travelled {rt} in the initial solution, but the first individual differs")
                    break
    last = evals[(gens - 1) * pop:]
    if S.W_sol is not W_ret or not any(W_ret is w for w in last) or objective(Day(W_ret, False))[0] > prev + 1e-9:
        J.bad("solution", f"the returned world has objective {objective(Day(W_ret, False))[0]}, the best of the last generation {prev}")
    c["best-world-not-last"] += W_ret is not last[-1]
    J.sig = hashlib.blake2b(repr(S.ttts).encode() + repr(S.route_log).encode(), digest_size=8).hexdigest()


def run(job):
    r = random.Random(job["seed"] * 31 + 7)
    spec = job.get("spec") or make_spec(job, r)
    J = Judge(job, spec, r)
    J.sig = None
    with env.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dict(due=d2d, dso=d2d, alns=alns, ga=ga)[job["kind"]](job, J, r)
    out = dict(viol=J.v, count={k: int(v) for k, v in J.c.items()})
    if J.sig:
        out["sig"] = J.sig
    if job["seed"] % 61 == 0:
        out["sample"] = dict(seed=job["seed"], kind=job["kind"], engine="cpp" if job["cpp"] else "python", topo=spec["topo"], links=len(spec["links"]), counts=dict(J.c))
    return out
