import random
from vmon import scen, stepmon, env, lawcheck
ID = "P29"
RULE = ("The real engine runs a generated scenario while the monitor records, from the live public attributes at the end of every step, what each "
        "vehicle's log row of that step has to contain. The logs are read at several random moments and at the end, and compared row by row. "
        "Non-trivial: at least one vehicle entered a link; distinct by the hash of all vehicles' links and entry/exit steps.")
TECHNIQUE = "online step monitor producing the expected log of every vehicle; offline row-by-row comparison with the recorded logs, read mid-run and at the end"
LEVEL_NOTE = "Exploration: every row of every vehicle log of the executions generated is compared with the live state; logging intervals 1, k and off in Python mode, on and off in C++ mode."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ["log-row", "log-read-mid-run", "log-read-end", "link-log-entry", "table-row", "gps-row", "spacing-entry", "coords", "scenarios-python", "scenarios-cpp", "logging-interval-k", "logging-off"]


def jobs(tier, seed):
    X = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
    P = [(20, False, X), (20, True, X), (90, False, {}), (30, False, dict(events=6)), (30, False, dict(load=2.5, topo="merge")), (25, False, dict(topo="trap")), (30, False, dict(lk=1)), (14, False, dict(off=1)),
         (130, True, {}), (40, True, dict(events=6)), (30, True, dict(load=2.5, topo="merge")), (40, True, dict(topo="trap")), (14, True, dict(off=1)), (24, False, dict(late=1)), (30, True, dict(late=1)), (30, True, dict(topo="ring"))]
    out = lawcheck.jobs_from(P, tier, seed, ID)
    return out


def same(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_logs(m, W, cpp, viol, c, k, off, final, tables=False):
    dt = m.dt
    def bad(rule, msg):
        if len(viol) < 8:
            viol.append((rule, ("at the end: " if final else f"read at T={m.T}: ") + msg))
    n_run = 0
    for nm, v in m.vehs.items():
        o = W.VEHICLES[nm]
        log = [o.log_t, o.log_state, o.log_link, o.log_x, o.log_v, o.log_lane, o.log_s]
        n = len(log[0])
        if any(len(z) != n for z in log):
            bad("series-length", f"vehicle {nm}: series lengths {[len(z) for z in log]}")
            continue
        if off:
            if n:
                bad("logging-off", f"vehicle {nm} has {n} log rows although logging is off")
            continue
        exp = m.rows[nm]
        if nm in m.ambiguous:
            c["ambiguous-vehicle"] = c.get("ambiguous-vehicle", 0) + 1
            continue
        keep = [j for j, r in enumerate(exp) if k == 1 or r[0] % k == 0 or r[1] in ("end", "abort")]
        for i, j in enumerate(keep):
            if (nm, j) in m.row_alt and i < n:
                x, vv = min(m.row_alt[nm, j], key=lambda z: abs(z[0] - log[3][i]))
                exp[j] = exp[j][:3] + (x, vv) + exp[j][5:]
        exp = [exp[j] for j in keep] if k > 1 else exp
        if n != len(exp):
            bad("log-rows", f"vehicle {nm}: {n} rows logged, {len(exp)} steps observed; log ends {[(float(t), s) for t, s in zip(log[0][-3:], log[1][-3:])]}, expected end {[(r[0]*dt, r[1]) for r in exp[-3:]]}")
            continue
        for i, r in enumerate(exp):
            c["log-row"] = c.get("log-row", 0) + 1
            t, st, lk, x, vv, ln, sp = [z[i] for z in log]
            lkn = None if (isinstance(lk, int) and lk == -1) else getattr(lk, "name", lk)
            if not same(t, r[0] * dt, 1e-9) or st != r[1] or lkn != r[2] or not same(x, r[3]) or not same(vv, r[4]) or ln != r[5]:
                bad("log-row", f"vehicle {nm} row {i}: logged {(float(t), st, lkn, float(x), float(vv), int(ln))}, observed {(r[0]*dt,)+tuple(r[1:6])}")
                break
            if r[6] is not None:
                c["spacing-entry"] = c.get("spacing-entry", 0) + 1
                if not any(same(sp, z, 1e-6) for z in r[6]):
                    bad("spacing", f"vehicle {nm} row {i}: logged spacing {float(sp)}, possible {r[6]}")
                    break
            elif sp != -1:
                bad("spacing", f"vehicle {nm} row {i} ({r[1]}): spacing {sp}")
                break
        if n and k == 1 and dt * 64 % 1 == 0:
            for i in {0, n // 2, n - 1 - (n > 1 and exp[-1][1] in ("end", "abort"))}:
                r = exp[i]
                got = o.get_xy_coords(r[0] * dt)
                if r[2] is None:
                    want = (-1, -1)
                else:
                    L = m.links[r[2]]
                    a, b = W.get_node(L.start), W.get_node(L.end)
                    want = (a.x + (b.x - a.x) * r[3] / L.length, a.y + (b.y - a.y) * r[3] / L.length)
                c["coords"] = c.get("coords", 0) + 1
                if not (same(got[0], want[0]) and same(got[1], want[1])):
                    bad("coords", f"vehicle {nm}: get_xy_coords({r[0] * dt}) is {tuple(float(z) for z in got)}, it was at {want}")
    # link entry log
    for nm, v in m.vehs.items():
        if off and cpp or nm in m.ambiguous:
            continue
        o = W.VEHICLES[nm]
        ltl = [(float(a[0]), getattr(a[1], "name", a[1])) for a in o.log_t_link]
        exp = [(float(int(v.dep_ts * dt)) if not cpp else float(v.dep_ts * dt), "home")] + [(T * dt, l) for T, l in zip(v.entry_t, v.links)]
        if v.ended_at is not None and m.prev[nm][0] == "end":
            exp.append((v.ended_at * dt, "end"))
        c["link-log-entry"] = c.get("link-log-entry", 0) + len(exp)
        if len(ltl) != len(exp) or any(a[1] != b[1] or not (same(a[0], b[0], 1e-9) or (a[1] == "home" and abs(a[0] - b[0]) <= 1)) for a, b in zip(ltl, exp)):
            bad("link-log", f"vehicle {nm}: {ltl}, observed {exp}")
            break
    c["log-read-end" if final else "log-read-mid-run"] = c.get("log-read-end" if final else "log-read-mid-run", 0) + 1
    if tables and not off and k == 1 and not m.ambiguous:
        df = W.analyzer.vehicles_to_pandas()
        exp = []
        for nm, v in m.vehs.items():
            for r in m.rows[nm]:
                if r[1] != "home":
                    exp.append((nm, v.orig, v.dest, r[0] * dt, r[2] or dict(wait="waiting_at_origin_node", abort="trip_aborted", end="trip_end")[r[1]], r[3], r[4]))
        got = list(zip(df["name"], df["orig"], df["dest"], df["t"], df["link"], df["x"], df["v"]))
        c["table-row"] = c.get("table-row", 0) + len(exp)
        if len(got) != len(exp):
            bad("vehicles-table", f"vehicles_to_pandas has {len(got)} rows, {len(exp)} states observed")
        else:
            for g, e in zip(got, exp):
                if g[0] != e[0] or g[1] != e[1] or g[2] != e[2] or not same(g[3], e[3]) or g[4] != e[4] or not same(g[5], e[5]) or not same(g[6], e[6]):
                    bad("vehicles-table", f"vehicles_to_pandas row {g}, observed {e}")
                    break
        if set(df["dn"]) - {m.deltan}:
            bad("vehicles-table", f"dn column {set(df['dn'])}, platoon size {m.deltan}")
        gd = W.analyzer.gps_like_log_to_pandas()
        exp = []
        for nm, v in m.vehs.items():
            for r in m.rows[nm]:
                if r[1] == "run":
                    L = m.links[r[2]]
                    a, b = W.get_node(L.start), W.get_node(L.end)
                    q = r[3] / L.length
                    exp.append((nm, r[0] * dt, a.x + (b.x - a.x) * q, a.y + (b.y - a.y) * q, r[4]))
        got = list(zip(gd["name"], gd["t"], gd["x"], gd["y"], gd["v"]))
        c["gps-row"] = c.get("gps-row", 0) + len(exp)
        if len(got) != len(exp):
            bad("gps-table", f"gps_like_log_to_pandas has {len(got)} rows, {len(exp)} positions observed")
        else:
            for g, e in zip(got, exp):
                if g[0] != e[0] or any(not same(x, y) for x, y in zip(g[1:], e[1:])):
                    bad("gps-table", f"gps_like_log_to_pandas row {g}, observed {e}")
                    break


def run(job):
    opts = dict(job["opts"])
    lk, off, late = opts.pop("lk", 0), opts.pop("off", 0), opts.pop("late", 0)
    spec = job.get("spec") or scen.generate(job["seed"], **opts)
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0xABCDEF)
    k = r.choice([2, 3, 5, 7]) if lk else 1
    spec["world"]["vehicle_logging_timestep_interval"] = (r.choice([-1]) if not cpp else 0) if off else k
    viol, c = [], {}
    steps = int(spec["world"]["tmax"] / (spec["world"]["deltan"] * spec["world"]["reaction_time"]))
    reads = {r.randrange(steps) for _ in range(r.choice([0, 1, 2, 4]))} | ({0} if r.random() < .2 else set())
    adds = {r.randrange(steps): r.randrange(1 << 30) for _ in range(3)} if late else {}

    def mid(m):
        if m.T in adds and not m.dead:
            q = random.Random(adds[m.T])
            d = q.choice(spec["demands"])
            if d["kind"] == "od":
                W.addVehicle(d["orig"], d["dest"], W.T * m.dt + q.choice([0, 1, 5]) * m.dt + m.dt)
        if m.T in reads and not m.dead:
            check_logs(m, W, cpp, viol, c, k, off, False, tables=r.random() < .3)
    with env.quiet():
        W = scen.build_world(spec, cpp=cpp)
        m = _run(spec, cpp, W, mid)
        if not m.dead:
            check_logs(m, W, cpp, viol, c, k, off, True, tables=True)
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if cpp else "python")] = 1
    c["vehicles"] = len(m.vehs)
    if lk:
        c["logging-interval-k"] = 1
    if off:
        c["logging-off"] = 1
    if m.dead or m.viol:
        c["violations-of-other-properties"] = 1
    res = dict(viol=viol, count=c, foreign=[x for x in m.viol][:2])
    if m.count["transferred"] or m.count["generated"]:
        res["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], steps=m.T + 1, interval=k, off=off, rows=c.get("log-row", 0))
    return res


def _run(spec, cpp, W, mid):
    return stepmon.run(spec, cpp, W=W, mid=mid, setup=lambda m: setattr(m, "keep_rows", True))
