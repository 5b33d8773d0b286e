"""P27 network utilities: every answer is compared with an independent computation on the state recorded while the world ran."""
import hashlib, heapq, math, random
from collections import defaultdict
import numpy as np
from vmon import scen, env, lawcheck
from vmon.lawcheck import all_pairs

TECHNIQUE = "reference oracle over recorded executions: link costs are recorded at every guidance update while the real engines run; distance, travel-time, k-shortest, random-route, time-space-network and route-evaluation answers are compared with independent enumeration and label-correcting computations"
LEVEL_NOTE = "Exploration of sampled networks and states (all simple node paths are enumerated, so networks are small); every answered pair is judged."
ASSUME = ["the least cost between two nodes sums free-flow, recorded or user-given link costs; links in parallel count with the best of them (route enumeration, distances) or their mean (the guidance's own convention, as in P12)",
          "links of zero length or zero cost are not used"]
RULE = ("Networks by seed over all topologies (grids, rings, random digraphs with parallel links, dead ends, one-way pairs), both engines, before, during and after a run with tolls and run-time changes. "
        "Non-trivial: at least one connected pair; distinct by the hash of the answers.")
REQUIRED = ["distance-pairs", "unreachable-pairs", "instant-pairs", "past-pairs", "past-exact-times", "k-routes", "k-exceeds-available", "k-truncated", "k-on-t", "custom-cost", "random-pairs", "random-several", "parallel-link-networks",
            "tsn-pairs", "tsn-all-sources", "route-evaluations", "route-evaluations-beyond-run", "grids", "no-path", "scenarios-python", "scenarios-cpp", "mid-run", "sub-second-dt"]
BUDGET = dict(quick=35, thorough=600)


def jobs(tier, seed):
    n = 300 if tier == "quick" else 7000
    base = seed * 1_000_003 + 27 * 20_011
    mix = [("tworoute", 3), ("grid", 3), ("random", 5), ("diverge", 1), ("ring", 2), ("trap", 1), ("merge", 1)]
    out = []
    for i in range(n):
        cpp = i % 5 in (1, 3)
        opts = dict(big=False, mix=mix, max_platoons=60, hard=i % 2 == 0)
        if i % 3 == 0:
            opts.update(events=4, event_kinds=["toll", "u", "cap_in"])
        if i % 7 == 0:
            opts["odd_dt"] = 0.6
        out.append(dict(seed=(base + i) % (1 << 31), cpp=cpp, opts=opts, so="plain" if cpp else None))
    out.sort(key=lambda j: j["cpp"])
    return out


def close(a, b):
    return a == b or abs(a - b) <= 1e-6 * (1 + abs(b))


class C:
    def __init__(s, spec, W, cpp, r):
        s.spec, s.W, s.cpp, s.r = spec, W, cpp, r
        s.v, s.c, s.h = [], defaultdict(int), hashlib.blake2b(digest_size=8)
        s.names = [n["name"] for n in spec["nodes"]]
        s.arcs = [(l["start"], l["end"], l["name"]) for l in spec["links"]]
        s.ends = {l["name"]: (l["start"], l["end"]) for l in spec["links"]}
        pairs = [(a, b) for a, b, _ in s.arcs]
        s.par = len(set(pairs)) < len(pairs)
        s.c["parallel-link-networks"] += s.par
        s.rec = {}

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg))

    # ---- references ------------------------------------------------------------------------------------------------------
    def best(s, cost):
        b = {}
        for a, e, n in s.arcs:
            b[a, e] = min(b.get((a, e), math.inf), cost[n])
        return b

    def node_paths(s, o, d, limit=4000):
        adj = defaultdict(set)
        for a, b, _ in s.arcs:
            adj[a].add(b)
        out, st = [], [(o, (o,))]
        while st:
            x, p = st.pop()
            if x == d:
                out.append(p)
                if len(out) > limit:
                    return None
                continue
            for y in adj[x]:
                if y not in p:
                    st.append((y, p + (y,)))
            if len(st) > 20000:
                return None
        return out

    # ---- checks ------------------------------------------------------------------------------------------------------------
    def table(s, what, got, ref, counter, as_matrix):
        n = len(s.names)
        if as_matrix:
            got = np.asarray(got, dtype=float)
            if got.shape != (n, n):
                s.bad(what, f"matrix of shape {got.shape} for {n} nodes")
                return
        W = s.W
        for i, a in enumerate(s.names):
            for j, b in enumerate(s.names):
                g = float(got[i, j]) if as_matrix else float(got[a, b])
                e = ref[a][b]
                s.c[counter] += 1
                if not math.isfinite(e):
                    s.c["unreachable-pairs"] += 1
                if not (close(g, e) if math.isfinite(e) else g == math.inf):
                    s.bad(what, f"{a}->{b}: {g}, the shortest one is {e}")
                    return
                s.h.update(b"%.3f" % (g if math.isfinite(g) else -1))
        if not as_matrix:
            a, b = s.r.choice(s.names), s.r.choice(s.names)
            if got[W.get_node(a), W.get_node(b)] != got[a, b]:
                s.bad(what, f"{a}->{b}: answer by node object {got[W.get_node(a), W.get_node(b)]} and by name {got[a, b]} differ")

    def distances(s):
        from uxsim import Utilities as U
        ref = all_pairs(s.names, [(a, b, c) for (a, b), c in s.best({l["name"]: l["length"] for l in s.spec["links"]}).items() if a != b])
        m = s.r.random() < 0.5
        s.table("distance", U.get_shortest_path_distance_between_all_nodes(s.W, return_matrix=m), ref, "distance-pairs", m)

    def guidance_ref(s, T):
        g = defaultdict(list)
        for n, (tt, toll, closed) in s.rec[T].items():
            g[s.ends[n]].append(math.inf if closed else tt + toll)
        return all_pairs(s.names, [(a, b, sum(x) / len(x)) for (a, b), x in g.items() if a != b and math.isfinite(sum(x))])

    def instant(s):
        from uxsim import Utilities as U
        m = s.r.random() < 0.5
        s.table("instantaneous", U.get_shortest_path_instantaneous_travel_time_between_all_nodes(s.W, return_matrix=m), s.guidance_ref(max(s.rec)), "instant-pairs", m)

    def past(s, now):
        from uxsim import Utilities as U
        W, dt = s.W, s.W.DELTAT
        every = s.every
        k = s.r.choice(sorted(s.rec))
        exact = s.r.random() < 0.5
        t = k * dt if exact else s.r.uniform(0, now * dt)
        if now * dt >= W.TMAX and s.r.random() < 0.3:
            t = W.TMAX + s.r.choice([0, 0.5, 10 * dt])
            exact = False
        m = s.r.random() < 0.5
        got, at = U.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, return_time=True, return_matrix=m)
        T = round(at / dt)
        if abs(at - T * dt) > 1e-6 or T not in s.rec:
            s.bad("past-time", f"t={t}: the returned time {at} is not the time of an update (interval {every * dt}, {len(s.rec)} updates)")
            return
        if abs(min(t, W.TMAX) - at) > every * dt + dt + 1e-6:
            s.bad("past-time", f"t={t}: the returned time {at} is more than one update interval {every * dt} away")
        if exact:
            s.c["past-exact-times"] += 1
            if abs(at - t) > every * dt * 1.000001:
                s.bad("past-time", f"t={t} is the time of an update but the answer is of {at}")
        s.table("past", got, s.guidance_ref(T), "past-pairs", m)
        got2 = U.get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, return_matrix=m)
        a, b = s.r.randrange(len(s.names)), s.r.randrange(len(s.names))
        if (got2[a, b] if m else got2[s.names[a], s.names[b]]) != (got[a, b] if m else got[s.names[a], s.names[b]]):
            s.bad("past", f"t={t}: the answer depends on return_time")

    def judge_routes(s, what, routes, costs, o, d, k, cost):
        best = s.best(cost)
        paths = s.node_paths(o, d)
        seen = set()
        last = -math.inf
        for i, R in enumerate(routes):
            R = [getattr(x, "name", x) for x in R]
            nodes = [s.ends[R[0]][0]] if R else []
            for l in R:
                if s.ends[l][0] != nodes[-1]:
                    s.bad(what, f"{o}->{d} k={k}: route {R} is not connected at {l}")
                    return
                nodes.append(s.ends[l][1])
            if not R or nodes[0] != o or nodes[-1] != d:
                s.bad(what, f"{o}->{d} k={k}: route {R} leads {nodes[:1]}->{nodes[-1:]}")
                return
            if len(set(nodes)) != len(nodes):
                s.bad(what, f"{o}->{d} k={k}: route {R} visits a node twice: {nodes}")
            c = sum(cost[l] for l in R)
            if costs is not None and not close(costs[i], c):
                s.bad(what, f"{o}->{d} k={k}: cost {costs[i]} returned for {R}, its links sum up to {c}")
            if c > sum(best[a, b] for a, b in zip(nodes, nodes[1:])) * (1 + 1e-9) + 1e-9:
                s.bad(what, f"{o}->{d} k={k}: route {R} of cost {c} does not use the best of parallel links")
            if tuple(nodes) in seen:
                s.bad(what, f"{o}->{d} k={k}: route {R} is returned twice")
            seen.add(tuple(nodes))
            if c < last - 1e-6 * (1 + abs(last)):
                s.bad(what, f"{o}->{d} k={k}: route {i} of cost {c} follows one of cost {last}")
            last = c
            s.h.update(repr(R).encode())
        s.c["k-routes"] += len(routes)
        if paths is None:
            return
        ref = sorted(sum(best[a, b] for a, b in zip(p, p[1:])) for p in paths)
        if len(routes) != min(k, len(ref)):
            s.bad(what, f"{o}->{d} k={k}: {len(routes)} routes returned, {len(ref)} exist")
            return
        s.c["k-exceeds-available"] += k > len(ref)
        s.c["k-truncated"] += k < len(ref)
        got = [sum(cost[getattr(x, "name", x)] for x in R) for R in routes]
        for i, (g, e) in enumerate(zip(got, ref)):
            if not close(g, e):
                s.bad(what, f"{o}->{d} k={k}: route {i} costs {g}, the {i + 1}-th shortest costs {e}")
                return

    def od(s):
        o, d = s.r.sample(s.names, 2)
        return o, d

    def k_shortest(s, now=None):
        from uxsim import Utilities as U
        W, r = s.W, s.r
        for _ in range(3):
            o, d = s.od()
            k = r.choice([1, 1, 2, 3, 5, 20])
            ob = (lambda n: W.get_node(n)) if r.random() < 0.3 else (lambda n: n)
            kind = r.choice(["default", "length", "table", "on_t", "on_t_custom"] if now else ["default", "length", "table"])
            t = r.uniform(0, now * W.DELTAT) if now else 0
            if kind == "default":
                cost = {l.name: l.length / l.u for l in W.LINKS}
                f, a = U.enumerate_k_shortest_routes, dict()
            elif kind == "length":
                cost = {l["name"]: l["length"] for l in s.spec["links"]}
                f, a = U.enumerate_k_shortest_routes, dict(cost_function=lambda l: l.length)
            elif kind == "table":
                cost = {l["name"]: r.uniform(0.1, 9) for l in s.spec["links"]}
                f, a = U.enumerate_k_shortest_routes, dict(cost_function=lambda l: cost[l.name])
            elif kind == "on_t":
                # traveltime_instant is read directly (its content is the business of P10)
                i = min(int(t // W.DELTAT), now - 1)
                cost = {l.name: float(l.traveltime_instant[i]) for l in W.LINKS}
                f, a = U.enumerate_k_shortest_routes_on_t, dict(t=t)
            else:
                tab = {l["name"]: r.uniform(1, 9) for l in s.spec["links"]}
                cost = {n: x + t % 7 for n, x in tab.items()}
                f, a = U.enumerate_k_shortest_routes_on_t, dict(t=t, cost_function=lambda l, t: tab[l.name] + t % 7)
            s.c["custom-cost"] += kind in ("length", "table", "on_t_custom")
            s.c["k-on-t"] += kind.startswith("on_t")
            try:
                ret = f(W, ob(o), ob(d), k=k, return_cost=True, **a)
            except Exception as e:
                if "NoPath" in type(e).__name__ or "NotFound" in type(e).__name__:
                    ps = s.node_paths(o, d)
                    s.c["no-path"] += 1
                    if ps:
                        s.bad("k-shortest", f"{o}->{d}: no path is reported, {ps[0]} exists")
                    continue
                raise
            s.judge_routes("k-shortest " + kind, ret[0], ret[1], o, d, k, cost)
            if f(W, o, d, k=k, **a) != ret[0]:
                s.bad("k-shortest", f"{o}->{d} k={k} {kind}: the routes differ with return_cost")

    def random_routes(s):
        from uxsim import Utilities as U
        k = s.r.choice([1, 2, 4, 10])
        random.seed(s.r.randrange(1 << 30))
        got = U.enumerate_k_random_routes(s.W, k)
        ff = {l.name: l.length / l.u for l in s.W.LINKS}
        ref = all_pairs(s.names, [(a, b, c) for (a, b), c in s.best(ff).items() if a != b])
        for o in s.names:
            for d in s.names:
                if o == d:
                    continue
                rs = [[getattr(x, "name", x) for x in R] for R in got[o, d]] if (o, d) in got else []
                if not math.isfinite(ref[o][d]):
                    if rs:
                        s.bad("random-routes", f"{o}->{d}: routes {rs[:2]} although there is no path")
                    continue
                s.c["random-pairs"] += 1
                s.c["random-several"] += len(rs) > 1
                if not 1 <= len(rs) <= k:
                    s.bad("random-routes", f"{o}->{d}: {len(rs)} routes for k={k}")
                if len({tuple(x) for x in rs}) != len(rs):
                    s.bad("random-routes", f"{o}->{d}: duplicates among {rs}")
                for R in rs:
                    nodes = [o]
                    for l in R:
                        if s.ends[l][0] != nodes[-1]:
                            s.bad("random-routes", f"{o}->{d}: route {R} is not connected at {l}")
                            return
                        nodes.append(s.ends[l][1])
                    if nodes[-1] != d or len(set(nodes)) != len(nodes):
                        s.bad("random-routes", f"{o}->{d}: route {R} visits {nodes}")
                        return
                if rs and not close(min(sum(ff[l] for l in R) for R in rs), ref[o][d]):
                    s.bad("random-routes", f"{o}->{d}: the shortest route of free-flow time {ref[o][d]} is not among {rs[:3]}")
                    return

    def tsn(s):
        from uxsim import Utilities as U
        W, r = s.W, s.r
        dt0 = W.DELTAT
        tmax = int(W.TMAX)
        every = r.random() < 0.4 and tmax / dt0 * len(s.names) < 2500
        dt = None if dt0 == int(dt0) and r.random() < 0.4 else max(1, r.choice([int(dt0), int(2 * dt0), int(7 * dt0)]))
        if len(s.names) * tmax / (dt or max(1, int(dt0))) > 12000:
            dt = max(1, int(tmax / 60))
        U.construct_time_space_network(W, dt=dt, from_origin_only=not every)
        s.c["tsn-all-sources"] += every
        d = max(1, int(dt0)) if dt is None else dt
        times = list(range(0, tmax, d))
        tt = {l.name: list(map(float, l.traveltime_actual)) for l in W.LINKS}
        if every:
            src = [(n, t) for n in s.names for t in times]
            src = r.sample(src, min(8, len(src)))
            missing = [x for x in src if x not in W.TSN_costs]
        else:
            want = {(v.orig.name, int(v.departure_time_in_second / d) * d) for v in W.VEHICLES.values()}
            missing = [x for x in want if x not in W.TSN_costs and x[1] < tmax]
            src = r.sample(sorted(want & set(W.TSN_costs)), min(8, len(want & set(W.TSN_costs))))
        if missing:
            s.bad("tsn", f"no paths from {missing[0]}, dt={d}")
            return
        outs = defaultdict(list)
        for a, b, n in s.arcs:
            outs[a].append((b, n))
        for a, t0 in src:
            # arrival cells are multiples of d; one label per (node, cell)
            lab = {(a, t0): 0.0}
            q = [(0.0, a, t0)]
            while q:
                c, x, t = heapq.heappop(q)
                if c > lab[x, t] + 1e-12:
                    continue
                for y, n in outs[x]:
                    w = tt[n][min(int(t / dt0), len(tt[n]) - 1)]
                    ta = int((t + w) / d) * d
                    if ta < W.TMAX and ta < tmax and lab.get((y, ta), math.inf) > c + w + 1e-12:
                        lab[y, ta] = c + w
                        heapq.heappush(q, (c + w, y, ta))
            ref = defaultdict(lambda: math.inf)
            for (y, t), c in lab.items():
                ref[y] = min(ref[y], c)
            for y in s.names:
                g = W.TSN_costs[a, t0].get((y, "end"), math.inf)
                s.c["tsn-pairs"] += 1
                if not close(float(g), ref[y]):
                    s.bad("tsn", f"{a}->{y} departing at {t0}: travel time {g}, the shortest one is {ref[y]} (dt={d})")
                    return
                if math.isfinite(ref[y]):
                    p = W.TSN_paths[a, t0][y, "end"]
                    if p[0] != (a, t0) or p[-1] != (y, "end") or any(u[0] != v[0] and not any(b == v[0] for b, _ in outs[u[0]]) for u, v in zip(p, p[1:])):
                        s.bad("tsn", f"{a}->{y} departing at {t0}: path {p[:6]}")
                        return

    def walk(s):
        W, r = s.W, s.r
        for _ in range(4):
            p = [r.choice(s.arcs)]
            while len(p) < r.choice([1, 2, 4, 6]):
                nx = [a for a in s.arcs if a[0] == p[-1][1]]
                if not nx:
                    break
                p.append(r.choice(nx))
            R = W.defRoute([n for _, _, n in p] if r.random() < 0.5 else [W.get_link(n) for _, _, n in p])
            t = r.uniform(0, W.TMAX * 1.2)
            beyond = False
            x, det = t, []
            for _, _, n in p:
                arr = W.get_link(n).traveltime_actual
                i = int(x // W.DELTAT)
                if i >= len(arr):
                    beyond = True
                    i = len(arr) - 1
                det.append(float(arr[i]))
                x += det[-1]
            s.c["route-evaluations"] += 1
            s.c["route-evaluations-beyond-run"] += beyond
            tot, d = R.actual_travel_time(t, return_details=True)
            if not close(float(tot), sum(det)) or len(d) != len(det) or any(not close(float(a), b) for a, b in zip(d, det)):
                s.bad("route-travel-time", f"route {[n for _, _, n in p]} from t={t}: {tot} = {list(d)}, walking the recorded link travel times gives {sum(det)} = {det}")
            if not close(float(R.actual_travel_time(t)), sum(det)):
                s.bad("route-travel-time", f"route {[n for _, _, n in p]} from t={t}: {R.actual_travel_time(t)} without details, {tot} with")

    def grid(s):
        from uxsim import Utilities as U
        r = s.r
        W = env.make_world(s.cpp, name="", deltan=5, tmax=300, print_mode=0, save_mode=0, show_mode=0)
        i, j = r.randint(1, 4), r.randint(1, 4)
        kw = dict(length=r.choice([100, 555.5]), free_flow_speed=r.choice([10, 13]), number_of_lanes=r.choice([1, 2]))
        nodes, links = U.generate_grid_network(W, i, j, **kw)
        s.c["grids"] += 1
        want = {((a, b), (a + x, b + y)) for a in range(i) for b in range(j) for x, y in ((1, 0), (-1, 0), (0, 1), (0, -1)) if 0 <= a + x < i and 0 <= b + y < j}
        got = [((round(l.start_node.x), round(l.start_node.y)), (round(l.end_node.x), round(l.end_node.y))) for l in W.LINKS]
        if len(W.NODES) != i * j or {(n.x, n.y) for n in W.NODES} != {(a, b) for a in range(i) for b in range(j)} or len(got) != len(want) or set(got) != want:
            s.bad("grid", f"{i} x {j}: {len(W.NODES)} nodes, {len(got)} links, links missing {list(want - set(got))[:3]}, extra {list(set(got) - want)[:3]}")
        for (a, b), n in nodes.items():
            if (n.x, n.y) != (a, b):
                s.bad("grid", f"node {(a, b)} is at {(n.x, n.y)}")
        for (a, b, x, y), l in links.items():
            if (l.start_node.x, l.start_node.y, l.end_node.x, l.end_node.y) != (a, b, x, y):
                s.bad("grid", f"link {(a, b, x, y)} leads elsewhere")
        for l in W.LINKS:
            if l.length != kw["length"] or l.number_of_lanes != kw["number_of_lanes"] or abs(l.u - kw["free_flow_speed"]) > 1e-9:
                s.bad("grid", f"link {l.name} has length {l.length}, lanes {l.number_of_lanes}, speed {l.u}; asked for {kw}")


def run(job):
    spec = job.get("spec") or scen.generate(job["seed"], **job["opts"])
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0xC27)
    w = spec["world"]
    dt = w["deltan"] * w["reaction_time"]
    if r.random() < 0.7:
        w["duo_update_time"] = r.choice([dt, 2 * dt, 5 * dt, 9.3 * dt, 20 * dt])
    w["duo_noise"] = 0
    w.pop("route_choice_update_gradual", None) if r.random() < 0.7 else None
    with env.quiet():
        W = scen.build_world(spec, cpp=cpp)
        s = C(spec, W, cpp, r)
        s.c["scenarios-cpp" if cpp else "scenarios-python"] += 1
        s.c["sub-second-dt"] += dt < 1
        s.every = max(1, int(w.get("duo_update_time", 600) / dt))
        s.distances()
        s.k_shortest()
        if r.random() < 0.5:
            s.random_routes()
        if r.random() < 0.1:
            s.grid()
        tolls = {l["name"]: l.get("toll") for l in spec["links"]}
        closed = {l["name"]: l.get("capacity_in") == 0 for l in spec["links"]}
        evs = defaultdict(list)
        for e in spec.get("events", []):
            evs[e["step"]].append(e)
        T = 0
        probes = set(r.sample(range(1, 120), 4))

        def after():
            nonlocal T
            if T % s.every == 0:
                s.rec[T] = {l.name: (float(l.traveltime_instant[T]), scen.toll_fn(tolls[l.name])(T * dt) if tolls[l.name] else 0.0, closed[l.name]) for l in W.LINKS}
            for e in evs.get(T, ()):
                scen.apply_event(W, e)
                if e["kind"] == "toll":
                    tolls[e["link"]] = e["toll"]
                elif e["kind"] == "cap_in":
                    closed[e["link"]] = e["value"] == 0
            T += 1
            if T in probes and not s.v:
                s.c["mid-run"] += 1
                s.instant()
                s.past(T)
                s.k_shortest(T)
        W.finalize_scenario()
        while W.check_simulation_ongoing() and T < 20000:
            W.exec_simulation(duration_t2=W.DELTAT)
            after()
        if not s.v:
            s.instant()
            for _ in range(3):
                s.past(T)
            s.k_shortest(T)
            s.walk()
            if r.random() < 0.6:
                s.tsn()
            if r.random() < 0.3:
                s.random_routes()
            s.distances()
    res = dict(viol=s.v, count=dict(s.c), sig=s.h.hexdigest())
    if job["seed"] % 61 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], nodes=len(s.names), links=len(s.arcs), updates=len(s.rec), update_every=s.every)
    return res
