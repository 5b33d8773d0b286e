"""P14 reproducibility and isolation: the same definition and seed must give the same picture whatever surrounds it."""
import hashlib, json, os, random, subprocess, sys
from vmon import scen, env, digest, queries, build

TECHNIQUE = "differential trace oracle: repeated, interleaved, perturbed (global RNG, hash seed, other worlds, other process) executions compared bit for bit; monitors on the global RNG state"
LEVEL_NOTE = "Exploration: the perturbations are sampled; a dependence on something not perturbed (time of day, locale, CPU) is not covered."
RULE = ("Scenarios by seed on both engines, each executed alone and again under perturbations: global random/numpy generators reseeded and drained during the run, other worlds created and "
        "stepped in between, step-interleaved twin worlds, worlds analysed and deleted meanwhile, separate processes with four string-hash seeds. Non-trivial: vehicles moved; distinct by the picture.")
REQUIRED = ["repeat", "interleaved", "global-rng", "other-world-analysed", "processes", "process-scenarios", "seed-change", "rng-untouched", "shared-defaults", "compared-cpp", "compared-python"]
BUDGET = dict(quick=60, thorough=700)
KINDS = ["repeat", "interleave", "globalrng", "isolation", "seedchange", "defaults"]


VEX = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])


def jobs(tier, seed):
    n = 150 if tier == "quick" else 1300
    base = seed * 1_000_003 + 14 * 20_011
    out = []
    for i in range(n):
        cpp = i % 3 == 2
        out.append(dict(seed=(base + i) % (1 << 31), cpp=cpp, opts=dict(max_platoons=80, p_vehicles=0.7) if cpp or i % 2 else dict(VEX, max_platoons=80), so="plain" if cpp else None, kind=KINDS[(i // 3) % len(KINDS)]))
    for k in range(4 if tier == "quick" else 30):
        out.append(dict(seed=(base + n + k) % (1 << 31), cpp=True, opts={}, so="plain", kind="process", n=5, hashseed=[1, 4242, 77, "random"][k % 4], timeout=240))
    py = [j for j in out if not j["cpp"]]
    h = len(py) // 2
    rest = py[h:] + [j for j in out if j["cpp"]]
    rest.sort(key=lambda j: (j["kind"] != "process", j["seed"] * 2654435761 % 1000003))
    return py[:h] + rest


def make(spec, cpp, **over):
    W = scen.build_world(spec, cpp, **over)
    if not cpp and spec.get("events"):
        evs = {}
        for e in spec["events"]:
            evs.setdefault(e["step"], []).append(e)
        W.user_function = lambda W_: [scen.apply_event(W_, e) for e in evs.get(W_.T, ())]
    return W


def generate(job, k=0):
    spec = scen.generate(job["seed"] + 7_000_000 * k, **dict(job["opts"], events=0 if job["cpp"] else 3))
    r = random.Random(job["seed"] + k)
    # demand drawn from the world's own generator
    if r.random() < 0.6:
        xs = [n["x"] for n in spec["nodes"]]
        ys = [n["y"] for n in spec["nodes"]]
        h = spec["world"]["tmax"]
        R = max(max(xs) - min(xs), max(ys) - min(ys), 1)
        spec["demands"].append(dict(kind=r.choice(["area2area2", "area2area"]), args=[r.choice(xs), r.choice(ys), R * 0.6, r.choice(xs), r.choice(ys), R * 0.6], t0=0, t1=h * 0.4,
                                    volume=spec["world"]["deltan"] * r.randint(3, 15)))
    return spec


def solo(spec, cpp, **over):
    W = make(spec, cpp, **over)
    W.exec_simulation()
    return W


def try_build(spec, cpp):
    """area demands can be refused (a single node in both areas): such scenarios are not usable here"""
    try:
        make(spec, cpp)
        return True
    except Exception:
        spec["demands"] = [d for d in spec["demands"] if d["kind"] not in ("area2area2", "area2area")]
        return False


def run(job):
    import numpy as np
    c, viol = {}, []

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n

    def bad(rule, msg):
        if len(viol) < 4:
            viol.append((rule, msg))
    if job["kind"] == "process":
        return run_process(job)
    cpp = job["cpp"]
    spec = generate(job)
    r = random.Random(job["seed"] * 5 + 2)
    kind = job["kind"]
    with env.quiet():
        try_build(spec, cpp)
        random.seed(job["seed"])
        np.random.seed(job["seed"] % 2 ** 32)
        g0, n0 = random.getstate(), np.random.get_state()
        W0 = solo(spec, cpp)
        same_global = random.getstate() == g0 and all(np.array_equal(a, b) for a, b in zip(np.random.get_state(), n0))
        cnt("rng-untouched")
        if not same_global:
            bad("global-rng-consumed", "building and running a seeded world changed the state of the process-wide random generators")
        ref = digest.capture(W0, tables=True)
        sig = digest.hexdigest(ref)

        def against(W, how):
            cnt("compared-" + ("cpp" if cpp else "python"))
            for d in digest.compare(ref, digest.capture(W, tables=True))[:2]:
                bad("differs-" + how, f"{how}: {d}")
        if kind == "repeat":
            for k in range(2):
                if r.random() < 0.5:
                    del W0
                    W0 = None
                W = solo(spec, cpp, name=r.choice(["vmon", "other", ""]))
                against(W, "repeat")
                cnt("repeat")
                W0 = W
        elif kind == "interleave":
            specs = [spec, generate(job, 1), spec, generate(job, 2)]
            for s in specs[1:]:
                try_build(s, cpp)
            Ws = [None] * 4
            engines = [cpp, cpp, cpp, cpp if r.random() < .5 else False]
            refs = [ref, None, ref, None]
            for k in (1, 3):
                refs[k] = digest.capture(solo(specs[k], engines[k]), tables=True)
            for k in r.sample(range(4), 4):
                Ws[k] = make(specs[k], engines[k])
            live = set(range(4))
            for k in list(live):
                Ws[k].finalize_scenario()
            while live:
                k = r.choice(sorted(live))
                if Ws[k].exec_simulation(duration_t2=Ws[k].DELTAT * r.choice([1, 1, 2, 5, 11])) == 1:
                    live.discard(k)
                cnt("interleaved")
            for k in range(4):
                cnt("compared-" + ("cpp" if engines[k] else "python"))
                for d in digest.compare(refs[k], digest.capture(Ws[k], tables=True))[:2]:
                    bad("differs-interleaved", f"world {k} interleaved with three others: {d}")
        elif kind == "globalrng":
            for k in range(2):
                random.seed(r.random())
                np.random.seed(r.randrange(2 ** 32))
                W = make(spec, cpp)
                W.finalize_scenario()
                while W.check_simulation_ongoing():
                    W.exec_simulation(duration_t2=W.DELTAT * r.randint(1, 30))
                    for _ in range(r.randrange(5)):
                        random.random(), np.random.rand(3)
                    if r.random() < 0.2:
                        random.seed(1)
                        np.random.seed(1)
                    cnt("global-rng")
                against(W, "global-rng-perturbed")
        elif kind == "isolation":
            # another world is built, run, analysed, plotted and deleted: the first one must not notice
            s2 = generate(job, 1)
            try_build(s2, cpp)
            W = make(spec, cpp)
            W.finalize_scenario()
            W.exec_simulation(duration_t2=W.DELTAT * max(1, W.TSIZE // 2))
            mid = digest.capture(W)
            W2 = make(s2, cpp)
            # same names in both worlds: lookups of the other world's objects
            W2.exec_simulation()
            for q in r.sample(queries.LIGHT + queries.HEAVY, 8):
                q(W2, r)
                cnt("other-world-analysed")
            for l in W2.LINKS[:2]:
                l.change_free_flow_speed(7)
                l.capacity_in = 0.1
            for d in digest.compare(mid, digest.capture(W))[:1]:
                bad("isolation", f"running and analysing another world changed this one: {d}")
            del W2
            W.exec_simulation()
            against(W, "other-world-between")
            for d in digest.compare(ref, digest.capture(W0, tables=True))[:1]:
                bad("isolation", f"a finished world changed while others were created and run: {d}")
        elif kind == "seedchange":
            det = [d for d in spec["demands"] if not d["kind"].endswith("2")]
            s1 = dict(spec, demands=det)
            trips = []
            for sd in (spec["world"]["random_seed"], r.randrange(1 << 30), 0):
                W = make(s1, cpp, random_seed=sd)
                trips.append([(digest.canon(v.orig), digest.canon(v.dest), digest.canon(v.departure_time)) for v in W.VEHICLES.values()])
                cnt("seed-change")
            if any(t != trips[0] for t in trips):
                bad("seed-changes-demand", "the trip set of deterministic demands depends on the seed")
            against(solo(spec, cpp), "repeat")
        elif kind == "defaults":
            # values the caller did not pass must not be shared between objects or worlds
            W = make(spec, cpp)
            n1, n2 = W.addNode("zz1", 0, 0), W.addNode("zz2", 1, 1)
            l1 = W.addLink("zl1", "zz1", "zz2", 500)
            l2 = W.addLink("zl2", "zz2", "zz1", 500)
            Wx = make(spec, cpp)
            m1 = Wx.addNode("zz1", 0, 0)
            k1 = Wx.addLink("zl1", "zz1", spec["nodes"][0]["name"], 500)
            v1 = W.addVehicle("zz1", "zz2", 0, name="zv1")
            v2 = W.addVehicle("zz1", "zz2", 0, name="zv2")

            def look():
                return [(list(x.signal_group)) for x in (l2, k1)], [list(x.signal) for x in (n2, m1)], [[digest.canon(z) for z in getattr(v2, a)] for a in ("links_prefer", "links_avoid") if hasattr(v2, a)]
            if not cpp:
                # in-place changes of one object's settings
                b0 = look() + (dict(Wx.meta_data),)
                l1.signal_group.append(3)
                n1.signal.append(9)
                W.meta_data["licence"] = "x"
                if b0 != look() + (dict(Wx.meta_data),):
                    bad("shared-defaults", f"changing one object's default setting in place changed another object's: {b0} -> {look() + (dict(Wx.meta_data),)}")
                n1.signal.pop()
                l1.signal_group.pop()
            before = look()
            for o, a in ((l1, "signal_group"), (n1, "signal"), (v1, "links_prefer"), (v1, "links_avoid")):
                x = getattr(o, a, None)
                if a.startswith("links"):
                    if a == "links_prefer":
                        v1.set_links_prefer([l1])
                elif isinstance(x, list):
                    setattr(o, a, [7] if a == "signal_group" else [5, 5])
            if before != look():
                bad("shared-defaults", f"changing one object's setting changed another object's: {before} -> {look()}")
            cnt("shared-defaults")
            against(solo(spec, cpp), "repeat")
    res = dict(viol=viol, count=c)
    if ref["vehicles"]:
        res["sig"] = sig
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], kind=kind, engine="cpp" if cpp else "python", vehicles=len(ref["vehicles"]))
    return res


CHILD = """
import sys, json
sys.path.insert(0, %r)
from vmon import env, scen, digest
from checks import P14
import warnings; warnings.simplefilter('ignore')
job = json.loads(sys.stdin.read())
if job['so_path']:
    env.uxsim(); env.load_cpp(so=job['so_path'])
out = {}
with env.quiet():
    for s, cpp in job['list']:
        j = dict(seed=s, cpp=cpp, opts=job['opts'])
        spec = P14.generate(j); P14.try_build(spec, cpp)
        D = digest.capture(P14.solo(spec, cpp), tables=True)
        out[f'{s}-{cpp}'] = {k: digest.hexdigest({k: D[k]}) for k in D}
print('RESULT' + json.dumps(out))
"""


def run_process(job):
    c, viol = {}, []
    lst = [(job["seed"] * 11 + k, k % 2 == 1) for k in range(job["n"])]
    import uxsim.uxsim_cpp as m
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    e = dict(os.environ, PYTHONHASHSEED=str(job["hashseed"]))
    p = subprocess.run([sys.executable, "-c", CHILD % here], input=json.dumps(dict(list=lst, opts=dict(max_platoons=80), so_path=m.__file__)), capture_output=True, text=True, env=e, timeout=200)
    line = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
    if p.returncode or not line:
        raise RuntimeError(f"child failed ({p.returncode}): {p.stderr[-800:]}")
    other = json.loads(line[0][6:])
    sigs = []
    with env.quiet():
        for s, cpp in lst:
            j = dict(seed=s, cpp=cpp, opts=dict(max_platoons=80))
            spec = generate(j)
            try_build(spec, cpp)
            D = digest.capture(solo(spec, cpp), tables=True)
            mine = {k: digest.hexdigest({k: D[k]}) for k in D}
            diff = [k for k in mine if mine[k] != other[f"{s}-{cpp}"].get(k)]
            c["process-scenarios"] = c.get("process-scenarios", 0) + 1
            sigs.append(digest.hexdigest(D))
            if diff:
                viol.append(("differs-process", f"scenario {s} ({'C++' if cpp else 'Python'}) gives other {diff} in another process with PYTHONHASHSEED={job['hashseed']}"))
    c["processes"] = 1
    return dict(viol=viol[:3], count=c, sigs=sigs, evals=len(lst))
