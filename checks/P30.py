"""P30 observers do not disturb: a run with other observation options and with queries, tables and plots in between must give
the picture of the plain run."""
import hashlib, os, random, shutil, tempfile
from vmon import scen, env, digest, queries

TECHNIQUE = "differential trace oracle: plain run vs. runs with other observation options and with every query/table/plot called in between, on the real engines"
LEVEL_NOTE = "Exploration: options and call positions are sampled; network_anim/network_fancy (external animation encoders) are called on few runs only."
RULE = ("Scenarios by seed on both engines; the reference run prints, logs and saves nothing beyond the default; the others vary print/progress/save options, logging interval, Edie cell sizes, names, "
        "memory options, and call read-only queries, tables and plots between steps and after the end. Non-trivial: vehicles moved; distinct by the option set and the picture.")
REQUIRED = ["options-print", "options-progress", "options-log-off", "options-log-interval", "options-eular", "options-save", "queries-light", "queries-heavy", "plots", "after-run-queries", "compared-cpp", "compared-python"]
BUDGET = dict(quick=60, thorough=700)


VEX = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])


def jobs(tier, seed):
    n = 420 if tier == "quick" else 2600
    base = seed * 1_000_003 + 30 * 20_011
    out = []
    for i in range(n):
        cpp = i % 3 == 2
        out.append(dict(seed=(base + i) % (1 << 31), cpp=cpp, opts=dict(max_platoons=80) if cpp or i % 2 else dict(VEX, max_platoons=80), so="plain" if cpp else None,
                        kind=["options", "queries", "log", "heavy", "plots" if i % 2 else "options", "queries"][(i // 3) % 6]))
    py = [j for j in out if not j["cpp"]]
    h = len(py) // 2
    rest = py[h:] + [j for j in out if j["cpp"]]
    rest.sort(key=lambda j: j["seed"] * 2654435761 % 1000003)
    return py[:h] + rest


SAME_TABLES = ("basic_to_pandas", "od_to_pandas", "link_to_pandas", "link_cumulative_to_pandas")


def prepare():
    import matplotlib
    matplotlib.use("Agg")


def run(job):
    cpp = job["cpp"]
    spec = scen.generate(job["seed"], **dict(job["opts"], events=0 if cpp else 3))
    r = random.Random(job["seed"] * 7 + 3)
    c, viol = {}, []

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n

    def bad(rule, msg):
        if len(viol) < 4:
            viol.append((rule, msg))

    def make(**over):
        W = scen.build_world(spec, cpp, **over)
        if not cpp and spec.get("events"):
            evs = {}
            for e in spec["events"]:
                evs.setdefault(e["step"], []).append(e)
            W.user_function = lambda W_: [scen.apply_event(W_, e) for e in evs.get(W_.T, ())]
        return W
    tmp = tempfile.mkdtemp(prefix="vmon30-")
    cwd = os.getcwd()
    os.chdir(tmp)
    done = []
    try:
        with env.quiet():
            W0 = make()
            dt = W0.DELTAT
            W0.exec_simulation()
            ref = digest.capture(W0, tables=True)
            kind = job["kind"]
            skip = set()
            over, W = {}, None
            if kind == "options":
                for nm, vals in (("print_mode", [0, 1]), ("show_progress", [0, 1]), ("show_progress_deltat", [dt, 2 * dt, 600, 7.5 * dt, 1e6]), ("save_mode", [0, 1]), ("name", ["", "x y", "a"]),
                                 ("meta_data", [{}, {"a": 1}]), ("eular_dt", [dt * 2, 60, 120, 300]), ("eular_dx", [25, 100, 1000])):
                    if r.random() < 0.55:
                        over[nm] = r.choice(vals)
                if "eular_dt" in over or "eular_dx" in over:
                    skip.add("tables-edie")
                    cnt("options-eular")
                if over.get("print_mode"):
                    cnt("options-print")
                if "show_progress_deltat" in over:
                    cnt("options-progress")
                if over.get("save_mode"):
                    cnt("options-save")
                if not cpp and r.random() < 0.3:
                    over["reduce_memory_delete_vehicle_route_pref"] = True
            elif kind == "log":
                k = r.choice([-1, -1, 0 if cpp else -1, 1 if cpp else 2, 3, 7] if not cpp else [-1, 0])
                over["vehicle_logging_timestep_interval"] = k
                cnt("options-log-off" if k <= 0 else "options-log-interval")
                if r.random() < 0.5:
                    over["print_mode"] = 1
            if kind in ("options", "log") and r.random() < 0.4 or kind in ("queries", "heavy", "plots"):
                W = make(**over)
                W.finalize_scenario()
                qs = [(q.__name__, q) for q in queries.LIGHT]
                if kind == "heavy":
                    qs += [(q.__name__, q) for q in queries.HEAVY]
                if over.get("vehicle_logging_timestep_interval", 1) != 1:
                    qs = [(n, q) for n, q in qs if n in ("q_link_counts", "q_link_now", "q_nodes", "q_stats", "q_ongoing", "q_link_curves")]
                while W.check_simulation_ongoing():
                    W.exec_simulation(duration_t2=dt * r.choice([1, 3, 10, 25, 60]))
                    if not W.check_simulation_ongoing():
                        break
                    if kind == "plots":
                        if r.random() < 0.25:
                            p = r.choice(queries.PLOTS)
                            try:
                                queries.plot(W, p)
                                cnt("plots")
                            except Exception as e:
                                cnt("plot-raised-" + p)
                            done.append(p)
                        continue
                    for n, q in r.sample(qs, r.randint(1, 3)):
                        q(W, r)
                        done.append(n)
                        cnt("queries-" + ("heavy" if q in queries.HEAVY else "light"))
            else:
                W = make(**over)
                W.exec_simulation()
            off = over.get("vehicle_logging_timestep_interval", 1)
            pic = digest.capture(W, tables=True)
            a, b = dict(ref), dict(pic)
            if off != 1:
                a.pop("vehicle-logs"), b.pop("vehicle-logs")
            drop = []
            if off != 1:
                drop = [t for t in ref["tables"] if t not in SAME_TABLES]
            if "tables-edie" in skip:
                drop = ["mfd_to_pandas", "link_traffic_state_to_pandas"]
            a["tables"] = {k: v for k, v in ref["tables"].items() if k not in drop}
            b["tables"] = {k: v for k, v in pic["tables"].items() if k not in drop}
            if over.get("reduce_memory_delete_vehicle_route_pref"):
                pass
            for d in digest.compare(a, b)[:2]:
                bad("outcome-" + kind, f"run with {over or 'default options'}, calls {sorted(set(done))[:6]}: {d}")
            cnt("compared-" + ("cpp" if cpp else "python"))
            # everything once more after the end
            names = []
            if off == 1:
                for q in r.sample(queries.LIGHT + queries.HEAVY, 7):
                    q(W, r)
                    names.append(q.__name__)
                    cnt("after-run-queries")
                if kind == "plots":
                    for p in r.sample(queries.PLOTS, 3):
                        try:
                            queries.plot(W, p)
                            cnt("plots")
                        except Exception:
                            cnt("plot-raised-" + p)
                        names.append(p)
                for d in digest.compare(pic, digest.capture(W, tables=True))[:1]:
                    bad("changed-by-analysis", f"after the end, {names} changed the world: {d}")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    res = dict(viol=viol, count=c)
    if ref["vehicles"]:
        res["sig"] = hashlib.blake2b((repr(sorted(over.items(), key=str)) + repr(done) + digest.hexdigest(ref)).encode(), digest_size=8).hexdigest()
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], kind=kind, over=over, calls=done[:10], engine="cpp" if cpp else "python")
    return res
