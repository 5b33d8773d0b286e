import random
from vmon import env, lawcheck
ID = "P11"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor (independent one-step law, shadow state) over generated workloads on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['specified-route', 'links-avoid', 'links-prefer', 'no-cyclic', 'trip-end', 'trip-abort', 'stays-at-dead-end', 'veh_avoid', 'veh_prefer', 'veh_route', 'cornered-python', 'cornered-cpp', 'scenarios-python', 'scenarios-cpp']


def jobs(tier, seed):
    X = dict(p_vehicles=1.0, vex=1, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "u"], mix=[("grid", 3), ("random", 3), ("tworoute", 2), ("trap", 2)])
    P = [(90, False, X), (90, True, X), (120, False, dict(p_vehicles=1.0)), (80, False, dict(p_vehicles=1.0, world=dict(no_cyclic_routing=True), mix=[("grid", 2), ("random", 2), ("ring", 1)])), (40, False, dict(mix=[("trap", 1), ("random", 2)], p_vehicles=1.0)),
         (120, True, dict(p_vehicles=1.0)), (80, True, dict(p_vehicles=1.0, world=dict(no_cyclic_routing=True), mix=[("grid", 2), ("random", 2), ("ring", 1)])), (40, True, dict(topo="trap"))]
    js = lawcheck.jobs_from(P, tier, seed, ID)
    for i in range(12 if tier == "quick" else 80):
        for cpp in (False, True):
            js.append(dict(seed=(seed * 4001 + i) * 2 + cpp, cpp=cpp, so="plain" if cpp else None, opts={}, cornered=1))
    return js


def cornered(job):
    """a vehicle that may use none of the links that leave a node: it stays or the run raises, but it never takes a link it has to avoid"""
    r = random.Random(job["seed"])
    cpp = job["cpp"]
    eng = "cpp" if cpp else "python"
    c, viol = {"cornered-" + eng: 0}, []
    with env.quiet():
        env.uxsim()
        W = env.make_world(cpp, tmax=1500, deltan=r.choice([1, 5]), random_seed=job["seed"], hard_deterministic_mode=r.random() < 0.3, no_cyclic_routing=r.random() < 0.3)
        n = r.randint(3, 5)
        for i in range(n):
            W.addNode(f"n{i}", i, 0)
        for i in range(n - 1):
            for j in range(r.randint(1, 3)):
                W.addLink(f"l{i}{j}", f"n{i}", f"n{i + 1}", r.choice([300, 800]), number_of_lanes=r.choice([1, 2]))
        k = r.randrange(n - 1)
        avoid = [l.name for l in W.get_node(f"n{k}").outlinks.values()]
        extra = [l.name for l in W.LINKS if l.name not in avoid and int(l.name[1]) > k and r.random() < 0.5]
        prefer = [r.choice(avoid)] if r.random() < 0.3 else []
        for i in range(3):
            W.addVehicle("n0", f"n{n - 1}", r.choice([0, 30, 200]), name=f"v{i}", links_avoid=avoid + extra, links_prefer=prefer)
        W.adddemand("n0", f"n{n - 1}", 0, 300, 0.2)
        try:
            W.exec_simulation()
        except Exception:
            c["cornered-raised"] = 1
        for i in range(3):
            v = W.VEHICLES[f"v{i}"]
            c["cornered-" + eng] += 1
            used = {getattr(l, "name", l) for l in v.log_link} & set(avoid + extra)
            if used:
                viol.append(("links-avoid", f"vehicle {v.name} has to avoid {avoid + extra}, which are all the links that leave n{k}, but used {sorted(used)}"))
            if v.state == "end":
                viol.append(("links-avoid", f"vehicle {v.name} ended its trip although it has to avoid all the links that leave n{k}"))
    return dict(viol=viol, count=c, sig=str((job["seed"], n, k, len(avoid))))


def run(job):
    if job.get("cornered"):
        return cornered(job)
    return lawcheck.run_law(job, ID)
