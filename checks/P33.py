"""P33 user-defined functions: called once per step with their object, at the documented moment, without influence unless they act."""
import random
from collections import Counter, defaultdict
from vmon import scen, env, digest

TECHNIQUE = "monitors placed through the feature itself (user_function of nodes, links, vehicles and the world) record every call with the state it sees; an offline checker compares the calls with the executed steps and the recorded logs; a differential oracle compares the outcome with the same run without the functions, and functions that act with the same actions between steps"
LEVEL_NOTE = "Exploration of sampled scenarios. Python engine: the C++ engine accepts the argument and never calls the function (recorded as a limitation in DESIGN.md)."
ASSUME = ["a vehicle whose trip is ended by another vehicle's or a node's processing in the same step may or may not be called in that step",
          "objects added by a function are called from the following step on at the latest"]
RULE = ("Scenarios by seed with functions on all or some nodes, links, vehicles and on the world, given as argument or set as attribute, before or during the run, in one run or in pieces; functions that only read, and functions that change capacities, speeds, signals and tolls or add vehicles. "
        "Non-trivial: at least one vehicle entered a link; distinct by the final picture.")
REQUIRED = ["steps", "link-calls", "node-calls", "vehicle-calls", "world-calls", "vehicle-moves", "ended-vehicles", "in-pieces", "set-during-run", "vehicles-added-by-function", "function-of-added-vehicle", "without-influence", "acting-functions", "removed-function", "partial"]
BUDGET = dict(quick=40, thorough=600)


def jobs(tier, seed):
    n = 700 if tier == "quick" else 14000
    base = seed * 1_000_003 + 33 * 20_011
    return [dict(seed=(base + i) % (1 << 31), cpp=False, so=None, timeout=200, kind=["watch", "watch", "act"][i % 3]) for i in range(n)]


def pieces(r, W, k, after=None):
    """executes the world in pieces of random length"""
    while W.check_simulation_ongoing():
        W.exec_simulation(duration_t2=W.DELTAT * r.randint(1, k))
        if after:
            after(W)


class Watch:
    def __init__(s, r, c, bad):
        s.r, s.c, s.bad = r, c, bad
        s.calls = defaultdict(list)          # (kind, name) -> [T]
        s.order = Counter()
        s.world_T = -1
        s.seen_now = Counter()
        s.moves = 0
        s.read = r.random() < 0.6            # whether the functions also read computed states of links and vehicles

    def common(s, W, kind, name, obj_W=True):
        if W.TIME != W.T * W.DELTAT:
            s.bad("clock", f"function of {kind} {name}: W.T={W.T}, W.TIME={W.TIME}, step size {W.DELTAT}")
        s.calls[kind, name].append(W.T)
        s.c[kind + "-calls"] += 1
        if kind != "world" and s.world_T == W.T:
            s.bad("order", f"the function of {kind} {name} was called after the world's function in step {W.T}")

    def link(s, l0):
        def f(l):
            if l is not l0():
                s.bad("object", f"the function of link {l0()} was called with {l!r}")
            s.common(l.W, "link", l.name)
            if len(l.cum_arrival) != l.W.T + 1 or len(l.cum_departure) != l.W.T + 1:
                s.bad("state", f"link {l.name} in step {l.W.T}: cumulative curves of length {len(l.cum_arrival)}, {len(l.cum_departure)}")
            elif s.read and abs(l.num_vehicles - (l.cum_arrival[-1] - l.cum_departure[-1])) > 1e-9:
                s.bad("state", f"step {l.W.T}, function of link {l.name}: {l.num_vehicles} vehicles, its curves say {l.cum_arrival[-1]} - {l.cum_departure[-1]}")
            if s.read:
                l.speed, l.density, l.flow, l.num_vehicles_queue, l.avg_speed if hasattr(l, "avg_speed") else 0
        return f

    def node(s, n0):
        def f(n):
            if n is not n0():
                s.bad("object", f"the function of node {n0()} was called with {n!r}")
            s.common(n.W, "node", n.name)
            if s.read:
                [(l.speed, l.num_vehicles, l.num_vehicles_queue, l.flow, l.density) for l in list(n.inlinks.values()) + list(n.outlinks.values())]
        return f

    def vehicle(s, v0):
        def f(v):
            if v is not v0():
                s.bad("object", f"the function of vehicle {v0()} was called with {v!r}")
            W = v.W
            s.common(W, "vehicle", v.name)
            if s.read and v.link is not None:
                v.link.speed, v.link.num_vehicles, v.link.density, v.traveled_route()
            # what the function sees is the state at the end of the vehicle's own update
            if W.vehicle_logging_timestep_interval == 1 and v.log_t and v.state == "run":
                if v.log_state[-1] == "run":
                    s.moves += 1
                    if v.log_t[-1] != W.TIME or v.log_link[-1] is not v.link:
                        s.bad("state", f"vehicle {v.name} in step {W.T} on {v.link}: last logged at {v.log_t[-1]} on {v.log_link[-1]}")
                    elif abs(v.x - (v.log_x[-1] + v.v * W.DELTAT)) > 1e-6 * max(1, v.link.length):
                        s.bad("state", f"vehicle {v.name} in step {W.T}: at {v.x}, logged {v.log_x[-1]} at the start of the step, speed {v.v}")
                    elif not -1e-9 <= v.x <= v.link.length + 1e-9:
                        s.bad("state", f"vehicle {v.name} in step {W.T} at {v.x} on {v.link} of length {v.link.length}")
        return f

    def world(s, w0):
        def f(W):
            if W is not w0():
                s.bad("object", "the world's function was called with another world")
            s.common(W, "world", "")
            s.world_T = W.T
            for l in W.LINKS:
                if len(l.cum_arrival) != W.T + 1 and l.name not in s.late:
                    s.bad("state", f"step {W.T}, world's function: link {l.name} has cumulative curves of length {len(l.cum_arrival)}")
                elif abs(l.num_vehicles - (l.cum_arrival[-1] - l.cum_departure[-1])) > 1e-9:
                    s.bad("state", f"step {W.T}, world's function: link {l.name} has {l.num_vehicles} vehicles, its curves say {l.cum_arrival[-1]} - {l.cum_departure[-1]}")
            for v in W.VEHICLES_RUNNING.values():
                if v.state != "run" or v.link is None:
                    s.bad("state", f"step {W.T}, world's function: vehicle {v.name} among the running ones has state {v.state}")
            s.c["steps"] += 1
        return f
    late = ()


def run(job):
    with env.quiet():
        return watch(job) if job["kind"] == "watch" else act(job)


def make(spec, hooks=None, **over):
    """hooks: None or dict(node=f(name)->function or None, link=…, vehicle=…, world=…)"""
    kw = dict(spec["world"])
    kw.update(over)
    if hooks and hooks.get("world"):
        kw["user_function"] = hooks["world"]
    W = env.make_world(False, **kw)
    for n in spec["nodes"]:
        a = {k: v for k, v in n.items() if k not in ("name", "x", "y")}
        f = hooks and hooks["node"](n["name"])
        if f:
            a["user_function"] = f
        W.addNode(n["name"], n["x"], n["y"], **a)
    for l in spec["links"]:
        a = {k: v for k, v in l.items() if k not in ("name", "start", "end", "length", "toll")}
        if l.get("toll"):
            a["congestion_pricing"] = scen.toll_fn(l["toll"])
        f = hooks and hooks["link"](l["name"])
        if f:
            a["user_function"] = f
        W.addLink(l["name"], l["start"], l["end"], l["length"], **a)
    scen.build_demand(W, spec)
    return W


def watch(job):
    r = random.Random(job["seed"] * 7717 + 5)
    c, v = Counter(), []

    def bad(rule, msg):
        if len(v) < 4:
            v.append((rule, msg))
    spec = scen.generate(job["seed"], max_platoons=80, p_vehicles=0.7, odd_dt=0.1)
    if r.random() < 0.2:
        spec["world"]["vehicle_logging_timestep_interval"] = r.choice([2, 5])
    w = Watch(r, c, bad)
    part = 1 if r.random() < 0.6 else 0.4
    if part < 1:
        c["partial"] += 1
    box = {}
    hooked = dict(node=set(), link=set())

    def on(kind):
        def g(name):
            if r.random() >= part:
                return None
            hooked[kind].add(name)
            get = box["W"].get_node if kind == "node" else box["W"].get_link
            return getattr(w, kind)(lambda: get(name))
        return g
    has_world = r.random() < 0.85

    class Hooks(dict):
        pass
    hooks = Hooks(node=on("node"), link=on("link"), world=w.world(lambda: box["W"]) if has_world else None)
    # the world must be known to the functions before its objects exist
    kw = dict(spec["world"])
    if has_world:
        kw["user_function"] = hooks["world"]
    W = env.make_world(False, **kw)
    box["W"] = W
    for n in spec["nodes"]:
        a = {k: x for k, x in n.items() if k not in ("name", "x", "y")}
        f = hooks["node"](n["name"])
        if f:
            a["user_function"] = f
        W.addNode(n["name"], n["x"], n["y"], **a)
    for l in spec["links"]:
        a = {k: x for k, x in l.items() if k not in ("name", "start", "end", "length", "toll")}
        if l.get("toll"):
            a["congestion_pricing"] = scen.toll_fn(l["toll"])
        f = hooks["link"](l["name"])
        if f:
            a["user_function"] = f
        W.addLink(l["name"], l["start"], l["end"], l["length"], **a)
    scen.build_demand(W, spec)
    first = {}                       # vehicle name -> first step in which its function must be called
    for x in list(W.VEHICLES.values()):
        if r.random() < part:
            x.user_function = w.vehicle(lambda x=x: x)
            first[x.name] = (0, 0)
    # vehicles with the function as constructor argument
    ods = [(x.orig.name, x.dest.name) for x in W.VEHICLES.values()] or [(spec["nodes"][0]["name"], spec["nodes"][-1]["name"])]
    horizon = spec["world"]["tmax"]
    extra = []
    for _ in range(r.randint(0, 3)):
        o, d = r.choice(ods)
        t = r.uniform(0, horizon * 0.6)
        nm = f"hooked{len(extra)}"
        b2 = {}
        b2["v"] = W.addVehicle(o, d, t, name=nm, user_function=w.vehicle(lambda b2=b2: b2["v"]))
        extra.append((o, d, t, nm))
        first[nm] = (0, 0)
    # vehicles added while running, by a function
    adds = {}
    added = []
    T_all = int(horizon / (spec["world"]["deltan"] * spec["world"]["reaction_time"]))
    if has_world and r.random() < 0.5:
        for k in sorted(r.sample(range(1, max(2, T_all // 2)), min(2, max(1, T_all // 2 - 1)))):
            o, d = r.choice(ods)
            adds[k] = (o, d, k * W.DELTAT + r.choice([W.DELTAT, 3.5 * W.DELTAT, 40 * W.DELTAT]), f"added{k}")

    def add(W, k, hook=True):
        o, d, t, nm = adds[k]
        b2 = {}
        b2["v"] = W.addVehicle(o, d, t, name=nm, **(dict(user_function=w.vehicle(lambda: b2["v"])) if hook else {}))
    removed = {}
    late = {}
    if has_world:
        base_world = W.user_function
        drop = r.randint(1, max(1, T_all - 1)) if r.random() < 0.3 and first else None
        lateset = r.randint(1, max(1, T_all - 1)) if r.random() < 0.4 and part < 1 else None

        def uf(W):
            base_world(W)
            if W.T in adds:
                add(W, W.T)
                c["vehicles-added-by-function"] += 1
                first[adds[W.T][3]] = (W.T + 1, W.T + 1)
                added.append(adds[W.T][3])
            if W.T == drop:
                nm = r2.choice(sorted(first))
                W.VEHICLES[nm].user_function = None
                removed[nm] = W.T
                c["removed-function"] += 1
            if W.T == lateset:
                cand = [l for l in W.LINKS if l.name not in hooked["link"]]
                if cand:
                    l = r2.choice(cand)
                    l.user_function = w.link(lambda: l)
                    late["link", l.name] = W.T + 1
                    c["set-during-run"] += 1
                cand = [x for x in W.VEHICLES_LIVING.values() if x.name not in first]
                if cand:
                    x = r2.choice(cand)
                    x.user_function = w.vehicle(lambda: x)
                    first[x.name] = (W.T + 1, W.T + 1)
                    c["set-during-run"] += 1
        r2 = random.Random(r.random())
        W.user_function = uf
    if r.random() < 0.4:
        c["in-pieces"] += 1
        pieces(r, W, r.choice([1, 5, 40]))
    else:
        W.exec_simulation()
    if not has_world:
        c["steps"] += W.T
    n = W.T
    want = list(range(n))
    for nm in hooked["node"]:
        if w.calls["node", nm] != want:
            bad("calls", f"function of node {nm}: {len(w.calls['node', nm])} calls in {n} steps: {diff(w.calls['node', nm], want)}")
    for nm in hooked["link"]:
        if w.calls["link", nm] != want:
            bad("calls", f"function of link {nm}: {len(w.calls['link', nm])} calls in {n} steps: {diff(w.calls['link', nm], want)}")
    for (k, nm), t0 in late.items():
        if w.calls[k, nm] != list(range(t0, n)):
            bad("calls", f"function of {k} {nm}, set at the end of step {t0 - 1}: {diff(w.calls[k, nm], list(range(t0, n)))}")
    if has_world and w.calls["world", ""] != want:
        bad("calls", f"the world's function: {len(w.calls['world', ''])} calls in {n} steps: {diff(w.calls['world', ''], want)}")
    for nm, (a, b) in first.items():
        x = W.VEHICLES[nm]
        got = w.calls["vehicle", nm]
        last = n - 1
        opt = ()
        if x.state in ("end", "abort"):
            c["ended-vehicles"] += 1
            te = x.arrival_time if x.state == "end" else None
            if x.state == "end":
                last, opt = te - 1, (te,)
            else:
                last, opt = None, ()
        if nm in added:
            c["function-of-added-vehicle"] += 1
        if last is None:
            last = got[-1] if got else a - 1
            tl = x.log_t[-1] / W.DELTAT
            if nm not in removed and W.vehicle_logging_timestep_interval == 1 and abs(last - tl) > 1.01:
                bad("calls", f"vehicle {nm} aborted its trip in step {tl:.0f}, its function was called until step {last}")
        if nm in removed and removed[nm] <= last:
            last, opt = removed[nm], ()
        if got not in (list(range(a, last + 1)), list(range(a, last + 1)) + [o for o in opt if o >= a]):
            bad("calls", f"function of vehicle {nm} ({x.state}, arrival step {x.arrival_time}): expected steps {a} to {last} and possibly {opt}: {diff(got, list(range(a, last + 1)))}")
    c["vehicle-moves"] += w.moves
    unexpected = [k for k in w.calls if w.calls[k] and k != ("world", "") and k[1] not in hooked.get(k[0], ()) and k not in late and k[1] not in first]
    if unexpected:
        bad("calls", f"functions called for {unexpected[:3]}, which have none")
    # the same run without functions
    U = make(spec)
    for o, d, t, nm in extra:
        U.addVehicle(o, d, t, name=nm)
    if adds:
        def uf2(W):
            if W.T in adds:
                add(W, W.T, hook=False)
        U.user_function = uf2
    U.exec_simulation()
    A, B = digest.capture(W), digest.capture(U)
    c["without-influence"] += 1
    for x in digest.compare(A, B):
        bad("influence", f"run with functions that only read and without: {x}")
    res = dict(viol=v, count=dict(c))
    if any(l.cum_arrival[-1] > 0 for l in W.LINKS):
        res["sig"] = digest.hexdigest(A)
    if job["seed"] % 41 == 0:
        res["sample"] = dict(seed=job["seed"], steps=n, nodes=len(hooked["node"]), links=len(hooked["link"]), vehicles=len(first), calls=sum(len(x) for x in w.calls.values()), world=has_world, added=added)
    return res


def diff(got, want):
    cg = Counter(got)
    twice = [k for k, m in cg.items() if m > 1][:4]
    miss = [k for k in want if k not in cg][:4]
    more = [k for k in cg if k not in set(want)][:4]
    return f"missing {miss}, more than once {twice}, unexpected {more}" + ("" if sorted(got) == got else ", not in order of time")


def act(job):
    """functions that act: the same as acting between the steps"""
    r = random.Random(job["seed"] * 7717 + 6)
    c, v = Counter(), []

    def bad(rule, msg):
        if len(v) < 4:
            v.append((rule, msg))
    spec = scen.generate(job["seed"], max_platoons=80, p_vehicles=0.5, events=r.randint(2, 6))
    evs = defaultdict(list)
    for e in spec["events"]:
        evs[e["step"]].append(e)
    W = scen.build_world(spec, False)
    W.user_function = lambda W_: [scen.apply_event(W_, e) for e in evs.get(W_.T, ())]
    if r.random() < 0.4:
        c["in-pieces"] += 1
        pieces(r, W, r.choice([2, 7]))
    else:
        W.exec_simulation()
    U = scen.build_world(spec, False)

    def after(U_):
        for e in evs.get(U_.T - 1, ()):
            scen.apply_event(U_, e)
            c["acting-functions"] += 1
    pieces(r, U, 1, after)
    A, B = digest.capture(W), digest.capture(U)
    # an action after the last step leaves no trace in the run but in the objects: both did it
    for x in digest.compare(A, B):
        bad("acting", f"actions in the world's function and the same actions between one-step executions: {x}")
    res = dict(viol=v, count=dict(c))
    if any(l.cum_arrival[-1] > 0 for l in W.LINKS):
        res["sig"] = digest.hexdigest(A)
    return res
