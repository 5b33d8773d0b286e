"""P15 the result does not depend on threads or scheduling."""
import ctypes, hashlib, os, random
from vmon import scen, env, digest, build

TECHNIQUE = "differential trace oracle over adversarial schedules: the engine is rebuilt on an own OpenMP runtime that serialises team members in a permuted order per region (or jitters real threads); also on the stock runtime with other thread counts"
LEVEL_NOTE = "Exploration: schedules are sampled at the granularity of team members between barriers (with as many members as links, every order of the loop bodies is reachable); interleavings inside a loop body are only jittered, races there are P18's business."
RULE = ("Scenarios by seed; reference: one thread. Compared: own runtime with 2..32 members in permuted serial order (a new order per region and phase) and with jittered real threads, stock libgomp with 2, 3, 8 and all threads; "
        "also scenarios whose vehicles have impossible prescribed routes (several errors in one step). Non-trivial: vehicles moved; distinct by (picture, schedule).")
REQUIRED = ["schedules-seq", "schedules-par", "schedules-stock", "error-scenarios", "errors-raised", "simultaneous-errors", "multi-member-regions"]
BUDGET = dict(quick=60, thorough=700)


def jobs(tier, seed):
    n = 44 if tier == "quick" else 800
    base = seed * 1_000_003 + 15 * 20_011
    out = []
    for i in range(n):
        so = "plain" if i % 4 == 3 else "shim"
        kind = "error" if i % 5 == 4 else "errors" if i % 11 == 5 else "run"
        o = dict(max_platoons=120, p_vehicles=0.7)
        if i % 3 == 0:
            o["mix"] = [("grid", 3), ("random", 3), ("cross", 1)]
        out.append(dict(seed=(base + i) % (1 << 31), cpp=True, opts=o, so=so, kind=kind))
    return out


def execute(spec, kind, threads, r_breaks=None, chunks=None, log=1):
    """-> (picture, error text or None)"""
    W = scen.build_world(spec, True, threads=threads, vehicle_logging_timestep_interval=log)
    if r_breaks:
        for (nm, route) in r_breaks:
            W.VEHICLES[nm].enforce_route(route)
    err = None
    try:
        if chunks:
            W.finalize_scenario()
            while W.check_simulation_ongoing():
                W.exec_simulation(duration_t2=W.DELTAT * chunks)
        else:
            W.exec_simulation()
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    return digest.capture(W, tables=err is None and log == 1, logs=log == 1 and err is None), err


def breaks(spec, r):
    """prescribed routes that fall apart on the way, for several vehicles at once"""
    W = scen.build_world(spec, True)
    out = []
    names = list(W.VEHICLES)
    for nm in r.sample(names, min(len(names), r.randint(2, 8))):
        v = W.VEHICLES[nm]
        firsts = [l for l in spec["links"] if l["start"] == v.orig.name]
        if not firsts:
            continue
        route, at = [], v.orig.name
        for _ in range(r.randint(1, 3)):
            nx = [l for l in spec["links"] if l["start"] == at]
            if not nx:
                break
            l = r.choice(nx)
            route.append(l["name"])
            at = l["end"]
        wrong = [l["name"] for l in spec["links"] if l["start"] != at]
        if wrong and at != v.dest.name:
            out.append((nm, route + [r.choice(wrong)]))
    return out


def disjoint(r):
    """equal corridors side by side, a vehicle with a broken route on most of them: the errors come in the same step, from many links (or nodes) at once"""
    n, gen = r.randint(3, 24), r.random() < 0.4
    N, L, V = [], [], []
    for i in range(n):
        for j in range(4):
            N.append(dict(name=f"n{i}_{j}", x=j, y=i))
        for j in range(3):
            L.append(dict(name=f"l{i}_{j}", start=f"n{i}_{j}", end=f"n{i}_{j + 1}", length=400, free_flow_speed=20, number_of_lanes=r.choice([1, 2])))
    r.shuffle(L)
    br = []
    dep = r.choice([0, 20, 60])
    for i in range(n):
        V.append(dict(orig=f"n{i}_0", dest=f"n{i}_3", t=dep, name=f"v{i}"))
        if r.random() < 0.85:
            k = 0 if gen else r.choice([1, 1, 1, 2])
            br.append((f"v{i}", [f"l{i}_{j}" for j in range(k)] + [f"l{(i + 1) % n}_2"]))
    r.shuffle(V)
    return dict(topo="disjoint", seed=0, nodes=N, links=L, demands=[], vehicles=V, events=[],
                world=dict(deltan=5, reaction_time=1, tmax=600, random_seed=r.randrange(1 << 30), hard_deterministic_mode=False)), br


def run(job):
    c, viol, sigs = {}, [], []

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n
    r = random.Random(job["seed"] * 3 + 11)
    spec = scen.generate(job["seed"], **job["opts"])
    if job["kind"] == "error":
        # many at the same moment
        for d in spec["demands"]:
            if r.random() < 0.5:
                d["t0"] = 0
                d["t1"] = max(d["t1"], 10 * spec["world"]["deltan"] * spec["world"]["reaction_time"])
    env.load_cpp()
    log = r.choice([1, 1, 1, 0])
    chunks = r.choice([None, None, 1, 7])
    lib = ctypes.CDLL(env._state["cpp"].__file__) if job["so"] == "shim" else None
    reg0 = lib.vmon_omp_multi_regions() if lib else 0
    with env.quiet():
        try:
            br = breaks(spec, r) if job["kind"] == "error" else None
            if job["kind"] == "errors":
                spec, br = disjoint(r)
        except Exception:
            br = None
        os.environ["VMON_OMP_MODE"] = "seq"
        ref, err0 = execute(spec, job["kind"], 1, br, chunks, log)
        if job["kind"] != "run":
            cnt("error-scenarios")
            if job["kind"] == "errors":
                cnt("simultaneous-errors", 1 if err0 else 0)
            if err0:
                cnt("errors-raised")
        if job["so"] == "shim":
            sched = [("seq", r.choice([2, 3, 5])), ("seq", 16), ("seq", r.choice([8, 32])), ("par", r.choice([2, 4, 8]))]
        else:
            sched = [("stock", 2), ("stock", 3), ("stock", 8), ("stock", -1)]
        for mode, n in sched:
            sd = r.randrange(1 << 30)
            os.environ["VMON_OMP_MODE"] = "par" if mode == "par" else "seq"
            os.environ["VMON_OMP_SEED"] = str(sd)
            pic, err = execute(spec, job["kind"], n, br, chunks, log)
            cnt("schedules-" + mode)
            if err != err0:
                viol.append(("error-depends-on-schedule", f"{n} threads ({mode}, schedule {sd}): {err!r} instead of {err0!r}"))
            for d in digest.compare(ref, pic)[:1]:
                viol.append(("differs", f"{n} threads ({mode}, schedule {sd}{', after the error' if err0 else ''}): {d}"))
            sigs.append(hashlib.blake2b((digest.hexdigest(ref) + f"{mode}{n}{sd}").encode(), digest_size=8).hexdigest())
            if len(viol) >= 3:
                break
    if lib:
        cnt("multi-member-regions", lib.vmon_omp_multi_regions() - reg0)
    res = dict(viol=viol[:3], count=c, evals=1 + len(sched))
    if ref["vehicles"]:
        res["sigs"] = sigs
    if job["seed"] % 23 == 0:
        res["sample"] = dict(seed=job["seed"], kind=job["kind"], links=len(spec["links"]), nodes=len(spec["nodes"]), schedules=sched, error=err0)
    return res
