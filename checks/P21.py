import io, contextlib, math, os, random, re, shutil, tempfile
import numpy as np
from vmon import scen, stepmon, env, lawcheck
ID = "P21"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor recording every trip and link visit; offline recomputation of every statistic and table from that record, compared with the analyzer mid-run and at the end"
LEVEL_NOTE = "Exploration: every statistic of the executions generated is recomputed from the observed trips."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ["od-row", "od-row-without-completed", "aborted-trips", "unfinished-trips", "basic", "no-completed-trip", "link-row", "area-od-row", "area-row", "group-row", "cumulative-row", "mid-run", "printed-stats", "printed-progress", "csv", "repeat", "scenarios-python", "scenarios-cpp"]
BUDGET = {"quick": 200, "thorough": 780}


def jobs(tier, seed):
    X = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
    P = [(14, False, X), (14, True, X), (50, False, {}), (20, False, dict(events=6)), (20, False, dict(load=2.5)), (20, False, dict(topo="trap")), (20, False, dict(topo="grid")), (15, False, dict(topo="random")),
         (70, True, {}), (30, True, dict(events=6)), (30, True, dict(load=2.5)), (30, True, dict(topo="trap")), (20, True, dict(topo="grid")), (20, True, dict(topo="random"))]
    js = lawcheck.jobs_from(P, tier, seed, ID)
    return js


def close(a, b, tol=1e-7):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def std(xs):
    mu = sum(xs) / len(xs)
    return math.sqrt(max(0.0, sum((x - mu) ** 2 for x in xs) / len(xs)))


def check(m, W, cpp, viol, c, r, final):
    dt, dn = m.dt, m.deltan
    a = W.analyzer
    where = "at the end" if final else f"after step {m.T}"

    def bad(rule, msg):
        if len(viol) < 8:
            viol.append((rule, f"{where}: {msg}"))

    def cnt(k, i=1):
        c[k] = c.get(k, 0) + i

    def row_is(rule, what, got, exp):
        for k, e in exp.items():
            g = got[k]
            if (g != e) if isinstance(e, str) or e is None else not close(g, e, 1e-6):
                bad(rule, f"{what}: {k} is {g}, recomputed {e}")
                return
    n = m.T + 1
    # ---- per OD ----------------------------------------------------------------------------------------------------
    names = list(m.nodes)
    # parameters in force now (the shadow already holds those of the next step)
    U = {l: float(s.obj.u) for l, s in m.links.items()}
    open_links = [s for s in m.links.values() if s.obj.capacity_in != 0]
    ftt = lawcheck.all_pairs(names, [(s.start, s.end, s.length / U[s.name]) for s in open_links])
    fdd = lawcheck.all_pairs(names, [(s.start, s.end, s.length) for s in open_links])
    od = {}
    for nm, v in m.vehs.items():
        if v.dest is None:
            continue
        st = m.prev[nm][0]
        full = v.links if st in ("end", "abort") else v.links[:-1]
        dist = sum(m.links[l].length for l in full) + (m.prev[nm][2] if st == "run" else 0.0)
        z = od.setdefault((v.orig, v.dest), dict(n=0, tt=[], d=[]))
        z["n"] += dn
        z["d"].append(dist)
        if st == "end":
            z["tt"].append((v.ended_at - v.dep_ts) * dt)
        elif st == "abort":
            cnt("aborted-trips")
        else:
            cnt("unfinished-trips")
    if not m.ambiguous:
        for rep in range(2 if r.random() < 0.3 else 1):
            df = a.od_to_pandas()
            if rep:
                cnt("repeat")
            if sorted(zip(df["orig"], df["dest"])) != sorted(od):
                bad("od-table", f"rows {sorted(zip(df['orig'], df['dest']))[:6]}, trips exist between {sorted(od)[:6]}")
                break
            for row in df.to_dict("records"):
                z = od[row["orig"], row["dest"]]
                cnt("od-row")
                if not z["tt"]:
                    cnt("od-row-without-completed")
                e = dict(total_trips=z["n"], completed_trips=len(z["tt"]) * dn, free_travel_time=ftt[row["orig"]][row["dest"]], shortest_distance=fdd[row["orig"]][row["dest"]],
                         average_distance_traveled_per_veh=sum(z["d"]) / len(z["d"]), stddiv_distance_traveled_per_veh=std(z["d"]))
                if z["tt"]:
                    e.update(average_travel_time=sum(z["tt"]) / len(z["tt"]), stddiv_travel_time=std(z["tt"]))
                row_is("od-table", f"OD {row['orig']}->{row['dest']}", row, e)
        # ---- totals ------------------------------------------------------------------------------------------------
        tt = [x for z in od.values() for x in z["tt"]]
        comp = len(tt) * dn
        e = dict(total_trips=sum(z["n"] for z in od.values()), completed_trips=comp)
        delay = None
        if comp:
            delay = sum((x - ftt[o][d]) * dn for (o, d), z in od.items() for x in z["tt"])
            e.update(total_travel_time=sum(tt) * dn, average_travel_time=sum(tt) / len(tt), total_delay=delay, average_delay=delay / comp)
        else:
            cnt("no-completed-trip")
            e.update(total_travel_time=-1, average_travel_time=-1, total_delay=-1, average_delay=-1)
        cnt("basic")
        row_is("basic-table", "basic stats", a.basic_to_pandas().to_dict("records")[0], e)
        a.basic_analysis()
        row_is("basic-attributes", "analyzer", dict(trip_all=a.trip_all, trip_completed=a.trip_completed, total_travel_time=a.total_travel_time, average_travel_time=a.average_travel_time,
               total_delay=a.total_delay, average_delay=a.average_delay, total_distance_traveled=a.total_distance_traveled),
               dict(trip_all=e["total_trips"], trip_completed=comp, total_travel_time=e["total_travel_time"], average_travel_time=e["average_travel_time"],
                    total_delay=e["total_delay"], average_delay=e["average_delay"], total_distance_traveled=sum(sum(z["d"]) * dn for z in od.values())))
        if r.random() < 0.5:
            buf = io.StringIO()
            pm, W.print_mode = W.print_mode, 0
            with contextlib.redirect_stdout(buf):
                a.print_simple_stats(force_print=True)
            W.print_mode = pm
            s = buf.getvalue()
            g = re.search(r"completed trips:\s+(\d+) / (\d+)", s)
            q = re.search(r"total travel time:\s+(-?[\d.]+) s", s)
            dd = re.search(r"average delay of trips:\s+(-?[\d.]+) s", s)
            td = re.search(r"total distance traveled:\s+(-?[\d.]+) m", s)
            cnt("printed-stats")
            if not g or (int(g.group(1)), int(g.group(2))) != (comp, e["total_trips"]):
                bad("printed-stats", f"printed {s!r}; completed {comp} of {e['total_trips']}")
            elif comp and (abs(float(q.group(1)) - e["total_travel_time"]) > 0.051 + 1e-6 * abs(e["total_travel_time"]) or (math.isfinite(e["average_delay"]) and abs(float(dd.group(1)) - e["average_delay"]) > 0.051)):
                bad("printed-stats", f"printed {s!r}; total travel time {e['total_travel_time']}, average delay {e['average_delay']}")
            elif not td or abs(float(td.group(1)) - sum(sum(z["d"]) * dn for z in od.values())) > 0.06 + 1e-6 * float(td.group(1)):
                bad("printed-stats", f"printed {s!r}; distance {sum(sum(z['d']) * dn for z in od.values())}")
            else:
                rt = re.search(r"delay ratio:\s+(\S+)", s)
                av = re.search(r"average speed:\s+(\S+) m/s", s)
                if comp and math.isfinite(e["average_delay"]) and (not rt or abs(float(rt.group(1)) - e["average_delay"] / e["average_travel_time"]) > 0.00051 + 1e-6 * abs(e["average_delay"] / e["average_travel_time"])):
                    bad("printed-stats", f"printed {s!r}; delay ratio {e['average_delay'] / e['average_travel_time']}")
                if not av or abs(float(av.group(1)) - a.average_speed) > 0.051:
                    bad("printed-stats", f"printed {s!r}; average speed {a.average_speed}")
            buf = io.StringIO()
            pm, W.print_mode = W.print_mode, 1
            with contextlib.redirect_stdout(buf):
                a.show_simulation_progress()
                W.print_scenario_stats()
            W.print_mode = pm
            s = buf.getvalue()
            run_ = [nm for nm in m.vehs if m.prev[nm][0] == "run"]
            vv = sum(float(W.VEHICLES[nm].v) for nm in run_) / len(run_) if run_ else 0.0
            g = re.search(r"^\s*([\d.]+) s\|\s*([\d.]+) vehs\|\s*(-?[\d.]+) m/s\|", s, re.M)
            if not g or min(abs(float(g.group(1)) - n * dt), abs(float(g.group(1)) - (n * dt if final else m.T * dt))) > 0.51 or abs(float(g.group(2)) - len(run_) * dn) > 0.51 or abs(float(g.group(3)) - vv) > 0.051:
                bad("printed-progress", f"printed {s[:90]!r}; time {n * dt}, {len(run_) * dn} vehicles with mean speed {vv:.6g}")
            f = {k: re.search(k + r":\s+(-?[\d.e+]+)", s) for k in ("number of vehicles", "number of platoons", "number of links", "number of nodes", "total road length", "timestep size", "platoon size", "simulation duration", "number of timesteps")}
            ex = {"number of vehicles": len(m.vehs) * dn, "number of platoons": len(m.vehs), "number of links": len(m.links), "number of nodes": len(names), "total road length": sum(l.length for l in m.links.values()),
                  "timestep size": dt, "platoon size": dn, "simulation duration": W.TMAX, "number of timesteps": W.TSIZE}
            for k, x in ex.items():
                if not f[k] or not close(f[k].group(1), x, 1e-6):
                    bad("printed-scenario", f"print_scenario_stats says {k} {f[k] and f[k].group(1)}, it is {x}")
            cnt("printed-progress")
        # ---- areas ---------------------------------------------------------------------------------------------------
        k = r.choice([1, 2, 3, 4])
        areas = [[x for x in names if r.random() < 0.5] for _ in range(k)]
        if r.random() < 0.4:                                # a partition: tables must add up
            areas = [[] for _ in range(k)]
            for x in names:
                areas[r.randrange(k)].append(x)
        areas = [x for x in areas if x] or [names]
        nmz = [f"A{i}" for i in range(len(areas))]
        arg = [[W.get_node(x) if r.random() < 0.5 else x for x in z] for z in areas]
        df = a.areas2areas_to_pandas(arg, nmz if r.random() < 0.7 else None)
        exp = []
        for i, A in enumerate(areas):
            for j, B in enumerate(areas):
                zz = [(o, d, z) for (o, d), z in od.items() if o in A and d in B]
                tot = sum(z["n"] for _, _, z in zz)
                if tot:
                    tts = [x for _, _, z in zz for x in z["tt"]]
                    ds = [x for _, _, z in zz for x in z["d"]]
                    f = [ftt[o][d] for o, d, z in zz for x in z["tt"]]
                    e = dict(total_trips=tot, completed_trips=len(tts) * dn, average_shortest_distance=sum(fdd[o][d] * z["n"] for o, d, z in zz) / tot)
                    if tts:
                        e.update(average_travel_time=sum(tts) / len(tts), average_free_travel_time=sum(f) / len(f), average_distance_traveled=sum(ds) / len(ds))
                    exp.append(((i, j), e))
        if len(df) != len(exp):
            bad("area-od-table", f"{len(df)} rows, {len(exp)} area pairs have trips")
        else:
            for row, ((i, j), e) in zip(df.to_dict("records"), exp):
                cnt("area-od-row")
                row_is("area-od-table", f"areas {i}->{j} {areas[i]}->{areas[j]}", row, e)
                if str(row["origin_area"]).startswith("A") and (row["origin_area"], row["destination_area"]) != (nmz[i], nmz[j]):
                    bad("area-od-table", f"areas {i}->{j} are named {row['origin_area']}, {row['destination_area']}")
        # ---- groups --------------------------------------------------------------------------------------------------
        vs = [nm for nm in m.vehs if m.vehs[nm].dest is not None]
        if vs:
            groups = [r.sample(vs, r.randint(1, len(vs))) for _ in range(r.choice([1, 2]))]
            gn = [f"G{i}" for i in range(len(groups))]
            df = a.vehicle_groups_to_pandas([[W.VEHICLES[x] for x in g] for g in groups], gn)
            for i, g in enumerate(groups):
                cnt("group-row")
                row = df.to_dict("records")[i]
                done = [x for x in g if m.prev[x][0] == "end"]
                e = dict(group=gn[i], total_trips=len(g), completed_trips=len(done))
                if done:
                    tts = [(m.vehs[x].ended_at - m.vehs[x].dep_ts) * dt for x in done]
                    ds = [sum(m.links[l].length for l in m.vehs[x].links) for x in done]
                    if all(t > 0 for t in tts) and all(math.isfinite(ftt[m.vehs[x].orig][m.vehs[x].dest]) and ftt[m.vehs[x].orig][m.vehs[x].dest] > 0 for x in done):
                        dl = [t / ftt[m.vehs[x].orig][m.vehs[x].dest] for t, x in zip(tts, done)]
                        de = [q / fdd[m.vehs[x].orig][m.vehs[x].dest] for q, x in zip(ds, done)]
                        sp = [q / t for q, t in zip(ds, tts)]
                        e.update(average_travel_time=sum(tts) / len(tts), average_delay_ratio=sum(dl) / len(dl), std_delay_ratio=std(dl), average_traveled_distance=sum(ds) / len(ds),
                                 average_detour_ratio=sum(de) / len(de), std_detour_ratio=std(de), average_speed=sum(sp) / len(sp), std_speed=std(sp))
                row_is("group-table", f"group of {len(g)} vehicles", row, e)
    # ---- links -----------------------------------------------------------------------------------------------------
    L = {}
    for l, s in m.links.items():
        vis = lawcheck.link_visits(m, l)
        vol = len(vis) * dn
        e = dict(start_node=s.start, end_node=s.end, length=s.length, traffic_volume=vol, vehicles_remain=(len(m.entries[l]) - len(vis)) * dn, free_travel_time=s.length / U[l])
        tta = lawcheck.actual_tt(m, l, W.TSIZE, s.length / m.u0[l])
        if vol:
            e.update(average_travel_time=sum(tta) / len(tta), stddiv_travel_time=std(tta), delay_ratio=sum(tta) / len(tta) / (s.length / U[l]))
        else:
            e.update(average_travel_time=-1, stddiv_travel_time=-1)
        L[l] = e
    df = a.link_to_pandas()
    if list(df["link"]) != list(m.links):
        bad("link-table", f"rows {list(df['link'])[:6]}, links {list(m.links)[:6]}")
    else:
        for row in df.to_dict("records"):
            cnt("link-row")
            row_is("link-table", f"link {row['link']}", row, L[row["link"]])
    df = a.link_cumulative_to_pandas()
    ca = {l: [0] * (n + 1) for l in m.links}
    cd = {l: [0] * (n + 1) for l in m.links}
    if not m.ambiguous and len(set(df["link"])) == len(m.links):
        for l in m.links:
            g = df[df["link"] == l]
            ent = np.zeros(n)
            ext = np.zeros(n)
            # the curves are sampled at the beginning of a step, before that step's node transfers
            for T, _ in m.entries[l]:
                if T + 1 < n:
                    ent[T + 1:] += dn
            for e_, T, nm, is_end in lawcheck.link_visits(m, l):
                if T + 1 < n:
                    ext[T + 1:] += dn
            cnt("cumulative-row", len(g))
            if len(g) != n or not np.allclose(g["t"], np.arange(n) * dt):
                bad("cumulative-table", f"link {l}: {len(g)} rows, {n} steps executed")
                break
            A, D = np.array(g["arrival_count"], float), np.array(g["departure_count"], float)
            if not (np.array_equal(A, ent) or np.array_equal(A[:-1], ent[1:])) or not np.array_equal(D, ext):
                lnk = W.get_link(l)
                if list(A) != [float(x) for x in lnk.cum_arrival] or list(D) != [float(x) for x in lnk.cum_departure]:
                    bad("cumulative-table", f"link {l}: counts in the table differ from the link's curves")
                    break
            if any(not close(x, y) for x, y in zip(g["actual_travel_time"], lawcheck.actual_tt(m, l, W.TSIZE, m.links[l].length / m.u0[l]))):
                bad("cumulative-table", f"link {l}: actual travel times differ from the observed ones")
                break
    if not m.ambiguous and not m.row_alt:
        on = {l: set() for l in m.links}
        for nm in m.vehs:
            for row in m.rows[nm]:
                if row[2]:
                    on[row[2]].add(nm)
        border = r.random() < 0.5
        areas = [[x for x in names if r.random() < 0.6] or [names[0]] for _ in range(2)]
        df = a.area_to_pandas(areas, ["X", "Y"], border_include=border)
        for A, row in zip(areas, df.to_dict("records")):
            cnt("area-row")
            ls = [l for l, s in m.links.items() if ((s.start in A or s.end in A) if border else (s.start in A and s.end in A))]
            veh = set().union(*[on[l] for l in ls]) if ls else set()
            e = dict(n_links=len(ls), traffic_volume=len(veh) * dn, vehicles_remain=sum(L[l]["vehicles_remain"] for l in ls))
            if veh:
                T = sum(L[l]["average_travel_time"] * L[l]["traffic_volume"] for l in ls)
                F = sum(L[l]["free_travel_time"] * L[l]["traffic_volume"] for l in ls)
                X = sum(L[l]["length"] * L[l]["traffic_volume"] for l in ls)
                e.update(total_travel_time=T, average_delay=max(T / F - 1, 0) if F > 0 else math.nan, average_speed=X / T if T > 0 else math.nan, vehicle_density=len(veh) * dn / sum(m.links[l].length for l in ls))
            row_is("area-table", f"area {A} (border {border})", row, e)
    if final and r.random() < 0.15:
        import pandas as pd
        d = tempfile.mkdtemp(prefix="p21_")
        try:
            a.output_data(os.path.join(d, "data"))
            for suf, tab in (("basic", a.basic_to_pandas()), ("od", a.od_to_pandas()), ("link", a.link_to_pandas()), ("mfd", a.mfd_to_pandas()), ("vehicles", a.vehicles_to_pandas())):
                z = pd.read_csv(os.path.join(d, f"data_{suf}.csv"), keep_default_na=False, na_values=["nan", ""])
                cnt("csv")
                if list(z.columns) != list(tab.columns) or len(z) != len(tab):
                    bad("csv", f"data_{suf}.csv has {len(z)} rows and columns {list(z.columns)}, the table {len(tab)} rows")
                else:
                    for col in z.columns:
                        try:
                            same = np.allclose(np.array(z[col], float), np.array(tab[col], float), equal_nan=True)
                        except (ValueError, TypeError):
                            same = [str(x) for x in z[col].fillna("None")] == [str(x) for x in tab[col].where(tab[col].notna(), "None")]
                        if not same:
                            bad("csv", f"data_{suf}.csv: column {col} differs from the table")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if not final:
        cnt("mid-run")


def run(job):
    spec = job.get("spec") or scen.generate(job["seed"], **job["opts"])
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0xA21)
    viol, c = [], {}
    steps = int(spec["world"]["tmax"] / (spec["world"]["deltan"] * spec["world"]["reaction_time"]))
    reads = {r.randrange(steps) for _ in range(r.choice([0, 1, 2]))}
    spec["world"]["vehicle_logging_timestep_interval"] = 1

    def mid(m):
        if not m.dead and m.T in reads:
            check(m, W, cpp, viol, c, r, False)

    def setup(m):
        m.keep_rows = True
        m.u0 = {l["name"]: l.get("free_flow_speed", 20) for l in spec["links"]}
    with env.quiet(), np.errstate(all="ignore"):
        W = scen.build_world(spec, cpp=cpp)
        m = stepmon.run(spec, cpp, W=W, mid=mid, setup=setup)
        if not m.dead:
            check(m, W, cpp, viol, c, r, True)
    viol += [(rule, msg) for p, rule, msg in m.viol if p == ID]
    foreign = [x for x in m.viol if x[0] != ID]
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if cpp else "python")] = 1
    if foreign:
        c["violations-of-other-properties"] = 1
    res = dict(viol=viol, count=c, foreign=foreign[:2])
    if m.count["transferred"] or m.count["generated"]:
        res["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], steps=m.T + 1, od_rows=c.get("od-row", 0), link_rows=c.get("link-row", 0))
    return res
