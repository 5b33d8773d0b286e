import random
from vmon import scen, stepmon, env, lawcheck
ID = "P10"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor recording every trip; offline cross-check of travel times, travelled routes, distances, link travel times and speed averages against the observed trips, mid-run and at the end"
LEVEL_NOTE = "Exploration: every vehicle and link of the executions generated is judged against the observed trip."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ["completed-trip", "aborted-trip", "unfinished-trip", "route-record", "link-travel-time", "free-flow-bound", "distance", "mid-run", "trip-table-row", "average-speed", "xy-now", "scenarios-python", "scenarios-cpp"]


def jobs(tier, seed):
    X = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
    P = [(20, False, X), (20, True, X), (90, False, {}), (30, False, dict(events=6)), (30, False, dict(load=2.5)), (30, False, dict(topo="trap")), (30, False, dict(topo="corridor")),
         (130, True, {}), (40, True, dict(events=6)), (40, True, dict(load=2.5)), (40, True, dict(topo="trap")), (30, True, dict(topo="corridor"))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check(m, W, cpp, viol, c, r, final):
    dt, n = m.dt, m.T + 1
    where = "at the end" if final else f"after step {m.T}"

    def bad(rule, msg):
        if len(viol) < 8:
            viol.append((rule, f"{where}: {msg}"))

    def cnt(k, i=1):
        c[k] = c.get(k, 0) + i
    trips = []
    for nm, v in m.vehs.items():
        o = W.VEHICLES[nm]
        st = m.prev[nm][0]
        if st == "end":
            cnt("completed-trip")
            if o.arrival_time != v.ended_at:
                bad("arrival-time", f"vehicle {nm}: arrival_time {o.arrival_time}, its trip ended in step {v.ended_at}")
            if not close(o.travel_time, (v.ended_at - v.dep_ts) * dt):
                bad("travel-time", f"vehicle {nm}: travel_time {o.travel_time}, it departed at {v.dep_ts*dt} and arrived at {v.ended_at*dt}")
            if o.flag_trip_aborted:
                bad("abort-flag", f"vehicle {nm} completed its trip but is flagged as aborted")
        elif st == "abort":
            cnt("aborted-trip")
            if o.travel_time != -1 or o.arrival_time != -1 or not o.flag_trip_aborted:
                bad("aborted-record", f"aborted vehicle {nm}: travel_time {o.travel_time}, arrival_time {o.arrival_time}, flag {o.flag_trip_aborted}")
        else:
            cnt("unfinished-trip")
            if (o.travel_time > 0 or o.arrival_time > 0):
                bad("unfinished-record", f"vehicle {nm} is in state {st} but has travel_time {o.travel_time}, arrival_time {o.arrival_time}")
            if st == "run":
                L = m.links[m.prev[nm][1]]
                if not close(o.link_arrival_time, v.entry_t[-1] * dt):
                    bad("link-arrival-time", f"vehicle {nm}: link_arrival_time {o.link_arrival_time}, it entered {L.name} at {v.entry_t[-1]*dt}")
                x, y = o.get_xy_coords()
                A, B = W.get_node(L.start), W.get_node(L.end)
                q = m.prev[nm][2] / L.length
                cnt("xy-now")
                if not close(x, A.x + (B.x - A.x) * q, 1e-6) or not close(y, A.y + (B.y - A.y) * q, 1e-6):
                    bad("coordinates", f"vehicle {nm}: get_xy_coords() is {(float(x), float(y))} at x={m.prev[nm][2]} of {L.name}")
        if o.departure_time != v.dep_ts:
            bad("departure-time", f"vehicle {nm}: departure_time {o.departure_time} changed from {v.dep_ts}")
        # distance
        cnt("distance")
        full = v.links if st in ("end", "abort") else v.links[:-1]
        lo = sum(m.links[l].length for l in full) + (m.prev[nm][2] if st == "run" else 0.0)
        if abs(o.distance_traveled - lo) > 1e-6 * max(1, lo):
            bad("distance", f"vehicle {nm} ({st}): distance_traveled {float(o.distance_traveled)}, the links and position passed give {lo}")
        # travelled route
        if nm in m.ambiguous:
            continue
        route, ts = o.traveled_route()
        cnt("route-record")
        names = [l.name for l in route]
        et = [t * dt for t in v.entry_t] + [v.ended_at * dt if st == "end" else -1]
        if names != v.links:
            bad("travelled-route", f"vehicle {nm}: traveled_route {names}, observed {v.links}")
        elif len(ts) != len(et) or any(not close(a, b) for a, b in zip(ts, et)):
            bad("travelled-route-times", f"vehicle {nm}: times {[float(t) for t in ts]}, observed {et}")
        route, ts = o.traveled_route(include_arrival_time=False, include_departure_time=True)
        if len(ts) != len(v.links) + 1 or abs(ts[0] - v.dep_ts * dt) > 1 or any(not close(a, b) for a, b in zip(ts[1:], et)):
            bad("travelled-route-times", f"vehicle {nm}: times with the departure {[float(t) for t in ts]}, observed {[v.dep_ts*dt] + et[:-1]}")
    # link travel times
    ent = {l: {} for l in m.links}
    for l, s in m.links.items():
        tta = s.obj.traveltime_actual
        if len(tta) != W.TSIZE:
            bad("actual-travel-time-length", f"link {l}: {len(tta)} entries for {W.TSIZE} steps")
            continue
        q = {}
        for T, nm in m.entries[l]:
            q.setdefault(nm, []).append(T)
        exp = [s.length / m.u0[l]] * W.TSIZE
        pos = {nm: 0 for nm in q}
        vmax = m.umax[l]
        last = None
        for T, nm in m.exits[l]:
            e = q[nm][pos[nm]]
            pos[nm] += 1
            is_end = m.vehs[nm].ended_at == T and m.vehs[nm].links[-1] == l and pos[nm] == len(q[nm])
            tt = (T - e + (1 if is_end else 0)) * dt
            for i in range(e, W.TSIZE):
                exp[i] = tt
            cnt("free-flow-bound")
            if tt < s.length / vmax - dt - 1e-6:
                bad("faster-than-free-flow", f"link {l}: {nm} took {tt} s for {s.length} m at most {vmax} m/s")
        cnt("link-travel-time", len(m.exits[l]))
        for i in range(W.TSIZE):
            if not close(float(tta[i]), exp[i]):
                bad("actual-travel-time", f"link {l}: actual travel time at step {i} is {float(tta[i])}, the vehicles that left give {exp[i]}")
                break
    # average speed statistic of the network
    tot, k = 0.0, 0
    for nm in m.vehs:
        for row in m.rows[nm]:
            if row[1] == "run":
                tot += row[4]
                k += 1
            elif row[1] == "wait":
                k += 1
    if k and not m.ambiguous and not m.row_alt:
        cnt("average-speed")
        a = W.analyzer
        if a.average_speed_count != k or not close(a.average_speed, tot / k, 1e-6):
            bad("average-speed", f"analyzer.average_speed {float(a.average_speed)} over {a.average_speed_count} samples, observed {tot/k} over {k}")
    if not m.ambiguous and not m.row_alt and all(m.rows[nm] for nm in m.vehs):
        df = W.analyzer.vehicle_trip_to_pandas()
        cnt("trip-table-row", len(df))
        if list(df["name"]) != list(m.vehs):
            bad("trip-table", f"vehicle_trip_to_pandas lists {len(df)} vehicles, {len(m.vehs)} exist")
        else:
            for row, (nm, v) in zip(df.itertuples(), m.vehs.items()):
                st = m.prev[nm][0]
                vs = [x[4] for x in m.rows[nm] if x[1] == "run"]
                exp_tt = (v.ended_at - v.dep_ts) * dt if st == "end" else None
                if row.orig != v.orig or row.dest != v.dest or not close(row.departure_time, v.dep_ts * dt) or row.final_state != m.rows[nm][-1][1]:
                    bad("trip-table", f"row {tuple(row)[1:]}; observed {(nm, v.orig, v.dest, v.dep_ts*dt, m.rows[nm][-1][1])}")
                elif (exp_tt is not None and not close(row.travel_time, exp_tt)) or (exp_tt is None and row.travel_time > 0):
                    bad("trip-table", f"vehicle {nm} ({st}): travel_time {row.travel_time}, observed {exp_tt}")
                elif vs and not close(row.average_speed, sum(vs) / len(vs), 1e-6):
                    bad("trip-table", f"vehicle {nm}: average_speed {row.average_speed}, observed {sum(vs)/len(vs)}")
    if not final:
        cnt("mid-run")


def run(job):
    opts = dict(job["opts"])
    spec = job.get("spec") or scen.generate(job["seed"], **opts)
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0xD157)
    viol, c = [], {}
    steps = int(spec["world"]["tmax"] / (spec["world"]["deltan"] * spec["world"]["reaction_time"]))
    reads = {r.randrange(steps) for _ in range(r.choice([0, 1, 2]))}
    spec["world"]["vehicle_logging_timestep_interval"] = 1

    def mid(m):
        if not m.dead and m.T in reads:
            check(m, W, cpp, viol, c, r, False)

    def setup(m):
        m.keep_rows = True
        m.u0 = {l["name"]: l.get("free_flow_speed", 20) for l in spec["links"]}
        m.umax = dict(m.u0)
        for e in spec["events"]:
            if e["kind"] == "u":
                m.umax[e["link"]] = max(m.umax[e["link"]], e["value"])
    with env.quiet():
        W = scen.build_world(spec, cpp=cpp)
        m = stepmon.run(spec, cpp, W=W, mid=mid, setup=setup)
        if not m.dead:
            check(m, W, cpp, viol, c, r, True)
    viol += [(rule, msg) for p, rule, msg in m.viol if p == ID]
    foreign = [x for x in m.viol if x[0] != ID]
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if cpp else "python")] = 1
    if foreign:
        c["violations-of-other-properties"] = 1
    res = dict(viol=viol, count=c, foreign=foreign[:2])
    if m.count["transferred"] or m.count["generated"]:
        res["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], steps=m.T + 1, trips=c.get("completed-trip", 0), aborted=c.get("aborted-trip", 0))
    return res
