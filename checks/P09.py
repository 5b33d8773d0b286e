import random
from collections import Counter
from vmon import scen, stepmon, env, lawcheck
ID = "P09"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor counting observed entries and exits per link; offline comparison of the complete cumulative curves and of randomized past-time queries, mid-run and at the end"
LEVEL_NOTE = "Exploration: every link and step of the executions generated is judged online; past-time queries are drawn at random (inside, between and outside the executed steps)."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ["curves", "curve-point", "query-count", "query-density", "query-flow", "query-speed", "query-avg-tt", "live-state", "live-queue-nonzero", "mid-run", "cumulative-table-row", "enter-log", "scenarios-python", "scenarios-cpp"]


def jobs(tier, seed):
    X = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
    P = [(20, False, X), (20, True, X), (80, False, {}), (30, False, dict(events=6)), (30, False, dict(load=2.5)), (20, False, dict(topo="trap")), (30, False, dict(peek=1)),
         (120, True, {}), (40, True, dict(events=6)), (40, True, dict(load=2.5)), (20, True, dict(topo="trap")), (20, True, dict(off=1)), (20, False, dict(off=1))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_curves(m, W, cpp, viol, c, r, final):
    dn, dt, n = m.deltan, m.dt, m.T + 1
    where = "at the end" if final else f"after step {m.T}"

    def bad(rule, msg):
        if len(viol) < 8:
            viol.append((rule, f"{where}: {msg}"))
    df = W.analyzer.link_cumulative_to_pandas() if (final or r.random() < .3) else None
    if df is not None:
        by = {k: g for k, g in df.groupby("link")}
    for l, s in m.links.items():
        o = s.obj
        a, d = [0] * n, [0] * n
        for T, _ in m.entries[l]:
            a[T] += dn
        for T, _ in m.exits[l]:
            d[T] += dn
        for i in range(1, n):
            a[i] += a[i - 1]
            d[i] += d[i - 1]
        ca, cd = list(o.cum_arrival), list(o.cum_departure)
        c["curve-point"] = c.get("curve-point", 0) + n
        if len(ca) != n or len(cd) != n:
            bad("curve-length", f"link {l}: curves have {len(ca)}/{len(cd)} points after {n} steps")
            continue
        for i in range(n):
            if not close(ca[i], a[i]) or not close(cd[i], d[i]):
                bad("curve-history", f"link {l} at step {i}: cumulative counts {float(ca[i])}/{float(cd[i])}, observed {a[i]}/{d[i]}")
                break
        for _ in range(12):
            z = r.random()
            i = r.randrange(n)
            if z < .6:
                t, e = i * dt, i
            elif z < .8:
                t, e = (i + r.choice([0.25, 0.5, 0.75])) * dt, i
            elif z < .9:
                t, e = (n + r.choice([0, 1, 50])) * dt, n - 1
            else:
                t, e = i * dt, i
            j = r.randrange(n)
            c["query-count"] = c.get("query-count", 0) + 1
            q = (o.arrival_count(t), o.departure_count(t), o.num_vehicles_t(t))
            if not (close(q[0], a[e]) and close(q[1], d[e]) and close(q[2], a[e] - d[e])):
                bad("count-query", f"link {l}: arrival_count, departure_count, num_vehicles_t at t={t} are {tuple(map(float, q))}; observed {(a[e], d[e], a[e]-d[e])}")
            c["query-density"] = c.get("query-density", 0) + 1
            k = (a[e] - d[e]) / s.length
            if not close(o.average_density(t), k):
                bad("density-query", f"link {l}: average_density({t}) = {float(o.average_density(t))}, observed {k}")
            tt = o.instant_travel_time(t)
            ti = m.tt_inst[l][e]
            c["query-speed"] = c.get("query-speed", 0) + 1
            if not close(tt, ti) or not close(o.average_speed(t), s.length / ti):
                bad("speed-query", f"link {l}: instant_travel_time({t})={float(tt)}, average_speed={float(o.average_speed(t))}; observed {ti}, {s.length/ti}")
            c["query-flow"] = c.get("query-flow", 0) + 1
            if not close(o.average_flow(t), k * s.length / ti):
                bad("flow-query", f"link {l}: average_flow({t})={float(o.average_flow(t))}, observed {k*s.length/ti}")
            if j > i:
                f = (a[j] - a[i]) / ((j - i) * dt)
                if not close(o.inflow_between(i * dt, j * dt), f):
                    bad("inflow-query", f"link {l}: inflow_between({i*dt}, {j*dt})={float(o.inflow_between(i*dt, j*dt))}, observed {f}")
                es = Counter(T for T, _ in m.entries[l] if i <= T < j)
                tta = [float(x) for x in o.traveltime_actual]
                got = o.average_travel_time_between(i * dt, j * dt)
                c["query-avg-tt"] = c.get("query-avg-tt", 0) + (1 if es else 0)
                if es:
                    m1 = sum(tta[T] for T in es) / len(es)
                    m2 = sum(tta[T] * k_ for T, k_ in es.items()) / sum(es.values())
                    if not (close(got, m1, 1e-6) or close(got, m2, 1e-6)):
                        bad("average-travel-time-query", f"link {l}: average_travel_time_between({i*dt}, {j*dt})={float(got)}; the vehicles that entered then have {m1}")
                elif not close(got, s.length / o.u):
                    bad("average-travel-time-query", f"link {l}: average_travel_time_between({i*dt}, {j*dt})={float(got)} although nobody entered (free flow {s.length/o.u})")
        if df is not None:
            g = by[l]
            c["cumulative-table-row"] = c.get("cumulative-table-row", 0) + len(g)
            if len(g) != n:
                bad("cumulative-table", f"link {l}: {len(g)} rows after {n} steps")
            elif any(not (close(t, i * dt) and close(x, a[i]) and close(y, d[i])) for i, (t, x, y) in enumerate(zip(g["t"], g["arrival_count"], g["departure_count"]))):
                bad("cumulative-table", f"link {l}: the table differs from the observed counts")
    # entry times recorded by vehicles reproduce the curves
    if final and not m.off:
        ent = Counter()
        for nm in m.vehs:
            for t, x in W.VEHICLES[nm].log_t_link:
                x = getattr(x, "name", x)
                if x not in ("home", "end"):
                    ent[x, round(t / dt)] += dn
        if not m.ambiguous:
            obs = Counter()
            for l in m.links:
                for T, _ in m.entries[l]:
                    obs[l, T] += dn
            c["enter-log"] = c.get("enter-log", 0) + sum(ent.values())
            if ent != obs:
                bad("enter-log", f"link entries in the vehicle logs differ from those observed: {[(k, ent[k], obs[k]) for k in set(ent) | set(obs) if ent[k] != obs[k]][:3]}")
            for l, s in m.links.items():
                ks = {round(t / dt) for t in s.obj.vehicles_enter_log}
                if ks != {T for T, _ in m.entries[l]}:
                    bad("enter-log", f"link {l}: vehicles_enter_log has times {sorted(ks)[:5]}.., observed entries {[T for T, _ in m.entries[l]][:5]}..")
                for t, v in s.obj.vehicles_enter_log.items():
                    if (round(t / dt), v.name) not in set(m.entries[l]):
                        bad("enter-log", f"link {l}: vehicles_enter_log[{t}] is {v.name}, who did not enter then")
                        break
    if not final:
        c["mid-run"] = c.get("mid-run", 0) + 1


def live(m, W, viol, c):
    """instantaneous states at the end of a step"""
    on = {}
    for nm, x in m.prev.items():
        if x[0] == "run":
            on.setdefault(x[1], []).append(x[3])
    for l, s in m.links.items():
        o, vs = s.obj, on.get(l, [])
        nv = len(vs) * m.deltan
        nq = sum(v < o.u for v in vs) * m.deltan
        sp = sum(vs) / len(vs) if vs else o.u
        c["live-state"] = c.get("live-state", 0) + 1
        if nq:
            c["live-queue-nonzero"] = c.get("live-queue-nonzero", 0) + 1
        got = (o.num_vehicles, o.num_vehicles_queue, o.density, o.speed, o.flow)
        exp = (nv, nq, nv / s.length, sp, nv / s.length * sp)
        for name, g, e in zip(("num_vehicles", "num_vehicles_queue", "density", "speed", "flow"), got, exp):
            if not close(g, e, 1e-6):
                if len(viol) < 8:
                    viol.append(("live-" + name, f"T={m.T} link {l}: {name}={float(g)}, the vehicles on it give {e}"))


def track_instant(m):
    """expected instantaneous travel times: computed at the beginning of a step from the state left by the previous one"""
    k = max(1, min(m.spec["world"].get("instantaneous_TT_timestep_interval", 5), int(m.spec["world"]["duo_update_time"] / m.dt)))
    on = {}
    for nm, x in m.tt_prev.items():
        if x[0] == "run":
            on.setdefault(x[1], []).append(x[3])
    for l, s in m.links.items():
        h = m.tt_inst.setdefault(l, [])
        if m.T % k == 0:
            vs = on.get(l, [])
            sp = sum(vs) / len(vs) if vs else m.tt_u[l]
            h.append(s.length / sp if sp > 0 else s.length / (m.tt_u[l] / 100))
        else:
            h.append(h[-1])
    m.tt_prev = m.prev
    m.tt_u = {l: s.obj.u for l, s in m.links.items()}


def run(job):
    opts = dict(job["opts"])
    off, peek = opts.pop("off", 0), opts.pop("peek", 0)
    spec = job.get("spec") or scen.generate(job["seed"], **opts)
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0x5EED)
    if off:
        spec["world"]["vehicle_logging_timestep_interval"] = 0 if cpp else -1
    viol, c = [], {}
    steps = int(spec["world"]["tmax"] / (spec["world"]["deltan"] * spec["world"]["reaction_time"]))
    reads = {r.randrange(steps) for _ in range(2)}

    def mid(m):
        if m.dead:
            return
        track_instant(m)
        live(m, W, viol, c)
        if m.T in reads:
            check_curves(m, W, cpp, viol, c, r, False)
        # control events follow; the free-flow speed they set applies to the next step's travel time
        us = {e["link"]: e["value"] for e in m.events.get(m.T, ()) if e["kind"] == "u"}
        m.tt_u.update(us)

    def setup(m):
        m.off = off
        m.tt_inst, m.tt_prev = {}, {}
        m.tt_u = {l["name"]: l.get("free_flow_speed", 20) for l in spec["links"]}
    with env.quiet():
        W = scen.build_world(spec, cpp=cpp)
        if peek and not cpp:     # states read in the middle of a step by user functions must not disturb later readings
            for n in W.NODES:
                n.user_function = lambda n: [(l.speed, l.num_vehicles, l.num_vehicles_queue, l.density, l.flow) for l in list(n.inlinks.values()) + list(n.outlinks.values())]
        m = stepmon.run(spec, cpp, W=W, mid=mid, setup=setup)
        if not m.dead:
            check_curves(m, W, cpp, viol, c, r, True)
    viol += [(rule, msg) for p, rule, msg in m.viol if p == ID]
    foreign = [x for x in m.viol if x[0] != ID]
    c["curves"] = m.count["curves"]
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if cpp else "python")] = 1
    if foreign:
        c["violations-of-other-properties"] = 1
    res = dict(viol=viol, count=c, foreign=foreign[:2])
    if m.count["transferred"] or m.count["generated"]:
        res["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], steps=m.T + 1, curve_points=c.get("curve-point", 0))
    return res
