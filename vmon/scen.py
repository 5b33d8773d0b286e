"""Scenario specs (plain JSON-able dicts), a seeded generator, and builders for both engines."""
import math, random
from . import env

RT = [1, 1, 1, 1, 0.5, 1.5, 2, 0.75]           # dyadic reaction times: every k*dt is exact
RT_ODD = [0.7, 1.1, 1.2, 1.3, 0.9]             # non-dyadic ones: floating point stress


def pick(r, seq):
    return seq[r.randrange(len(seq))]


def choice_w(r, items):
    tot = sum(w for _, w in items)
    z = r.random() * tot
    for it, w in items:
        z -= w
        if z <= 0:
            return it
    return items[-1][0]


class B:
    """spec builder"""

    def __init__(self, r):
        self.r = r
        self.big = False
        self.nodes, self.links = [], []
        self.demands, self.vehicles, self.events = [], [], []

    def node(self, name, x, y, **kw):
        d = dict(name=name, x=x, y=y)
        d.update(kw)
        self.nodes.append(d)
        return name

    def link(self, a, b, name=None, **kw):
        r = self.r
        d = dict(name=name or f"{a}_{b}_{len(self.links)}", start=a, end=b)
        d["length"] = kw.pop("length", None) or pick(r, [50, 100, 150, 200, 300, 400, 500, 700, 1000, round(r.uniform(60, 900), 1)])
        d["free_flow_speed"] = kw.pop("free_flow_speed", None) or pick(r, [5, 8, 10, 12.5, 15, 20, 20, 25, 30, round(r.uniform(6, 30), 2)])
        d["number_of_lanes"] = kw.pop("number_of_lanes", None) or pick(r, [1, 1, 1, 2, 2, 3, 4])
        if "jam_density" not in kw:
            kw["jam_density"] = pick(r, [0.2, 0.2, 0.14, 0.1, round(r.uniform(0.1, 0.25), 3)]) * d["number_of_lanes"]
        d.update(kw)
        self.links.append(d)
        return d["name"]


def topo_corridor(b, o):
    r = b.r
    n = r.randint(2, 5)
    for i in range(n + 1):
        b.node(f"n{i}", i, 0)
    for i in range(n):
        kw = {}
        if r.random() < 0.35:
            kw["capacity_out"] = round(r.uniform(0.1, 1.2), 2)
        if r.random() < 0.35:
            kw["capacity_in"] = round(r.uniform(0.1, 1.2), 2)
        b.link(f"n{i}", f"n{i+1}", **kw)
    ods = [("n0", f"n{n}")]
    if n > 2:
        ods += [(f"n{r.randint(1, n-2)}", f"n{n}"), ("n0", f"n{r.randint(1, n-1)}")]
    return ods


def topo_merge(b, o):
    r = b.r
    k = r.randint(2, 4)
    b.node("m", 0, 0, **({"flow_capacity": round(r.uniform(0.2, 1.6), 2)} if r.random() < 0.3 else {}))
    b.node("d", 1, 0)
    ods = []
    for i in range(k):
        b.node(f"o{i}", -1, i)
        b.link(f"o{i}", "m", merge_priority=pick(r, [1, 1, 2, 0.5, 3, 0, round(r.uniform(0.1, 4), 2)]),
               **({"capacity_out": round(r.uniform(0.1, 1.0), 2)} if r.random() < 0.25 else {}))
        ods.append((f"o{i}", "d"))
    for _ in range(1 if r.random() < 0.75 else 2):
        b.link("m", "d", **({"capacity_in": round(r.uniform(0.2, 1.0), 2)} if r.random() < 0.3 else {}))
    return ods


def topo_diverge(b, o):
    r = b.r
    k = r.randint(2, 3)
    b.node("o", -1, 0)
    b.node("m", 0, 0)
    b.link("o", "m")
    ods = []
    for i in range(k):
        b.node(f"d{i}", 1, i)
        b.link("m", f"d{i}", **({"capacity_out": round(r.uniform(0.1, 0.8), 2)} if r.random() < 0.3 else {}))
        ods.append(("o", f"d{i}"))
        if r.random() < 0.5:
            b.node(f"e{i}", 2, i)
            b.link(f"d{i}", f"e{i}", **({"capacity_in": round(r.uniform(0.1, 0.8), 2)} if r.random() < 0.5 else {}))
            ods.append(("o", f"e{i}"))
    return ods


def topo_cross(b, o):
    """signalised intersection with 3-4 arms, possibly two-way arms"""
    r = b.r
    k = r.randint(3, 4)
    nph = pick(r, [2, 2, 2, 3, 1])
    plan = [pick(r, [10, 15, 20, 30, 7, 22.5]) for _ in range(nph)]
    kw = dict(signal=plan, signal_offset=pick(r, [0, 0, 5, 12, sum(plan) - 1])) if r.random() < 0.85 else {}
    if r.random() < 0.2:
        kw["flow_capacity"] = round(r.uniform(0.3, 2.0), 2)
        if r.random() < 0.5:
            kw["number_of_lanes"] = r.randint(1, 3)
    b.node("c", 0, 0, **kw)
    ods = []
    for i in range(k):
        b.node(f"a{i}", math.cos(i), math.sin(i))
        b.link(f"a{i}", "c", signal_group=[i % nph] if r.random() < 0.8 else sorted({r.randrange(nph), r.randrange(nph)}),
               merge_priority=pick(r, [1, 1, 2, 0.5]))
        b.link("c", f"a{i}")
    for i in range(k):
        for j in range(k):
            if i != j and r.random() < 0.7:
                ods.append((f"a{i}", f"a{j}"))
    return ods or [("a0", "a1")]


def topo_grid(b, o):
    r = b.r
    n = r.randint(2, 3)
    m = r.randint(2, 4)
    if b.big:
        n, m = n + 3, m + 2
    sig = r.random() < 0.5
    for i in range(n):
        for j in range(m):
            kw = {}
            if sig and r.random() < 0.8:
                kw = dict(signal=[pick(r, [10, 20, 30]), pick(r, [10, 20, 25])], signal_offset=pick(r, [0, 10, 17]))
            elif r.random() < 0.1:
                kw = dict(flow_capacity=round(r.uniform(0.4, 1.6), 2))
            b.node(f"g{i}{j}", i, j, **kw)
    for i in range(n):
        for j in range(m):
            for di, dj, ph in ((1, 0, 0), (0, 1, 1)):
                if i + di < n and j + dj < m:
                    p, q = f"g{i}{j}", f"g{i+di}{j+dj}"
                    L = pick(r, [100, 200, 300, 400])
                    for s, t in ((p, q), (q, p)):
                        tgt = next(x for x in b.nodes if x["name"] == t)
                        b.link(s, t, length=L, signal_group=[ph] if "signal" in tgt else [0])
    names = [x["name"] for x in b.nodes]
    ods = []
    for _ in range(r.randint(3, 8)):
        s, t = r.sample(names, 2)
        ods.append((s, t))
    return ods


def topo_tworoute(b, o):
    r = b.r
    for nm, x, y in (("o", 0, 0), ("p", 1, 0), ("u", 2, 1), ("w", 2, -1), ("q", 3, 0), ("d", 4, 0)):
        b.node(nm, x, y)
    b.link("o", "p")
    toll = [[0, 0], [pick(r, [200, 400]), pick(r, [30, 100, 300])], [pick(r, [600, 800]), 0]] if r.random() < 0.4 else None
    b.link("p", "u", **({"toll": toll} if toll else {}))
    b.link("u", "q")
    b.link("p", "w")
    b.link("w", "q", **({"capacity_out": round(r.uniform(0.2, 0.8), 2)} if r.random() < 0.5 else {}))
    if r.random() < 0.5:
        b.link("u", "w", length=pick(r, [50, 100]))
    if r.random() < 0.3:
        b.link("p", "q", length=pick(r, [300, 600]))
    b.link("q", "d")
    return [("o", "d"), ("p", "q"), ("p", "d")]


def topo_ring(b, o):
    r = b.r
    n = r.randint(3, 6)
    for i in range(n):
        b.node(f"r{i}", math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n))
    for i in range(n):
        b.link(f"r{i}", f"r{(i+1) % n}", length=pick(r, [50, 100, 200]), merge_priority=pick(r, [1, 2, 5]))
        if r.random() < 0.3:
            b.link(f"r{(i+1) % n}", f"r{i}", length=pick(r, [50, 100, 200]))
    ods = []
    for i in range(n):
        if r.random() < 0.6:
            b.node(f"i{i}", 2, i)
            b.link(f"i{i}", f"r{i}", merge_priority=pick(r, [1, 0.5, 1]))
            b.node(f"x{i}", -2, i)
            b.link(f"r{i}", f"x{i}")
    ins = [x["name"] for x in b.nodes if x["name"].startswith("i")] or ["r0"]
    outs = [x["name"] for x in b.nodes if x["name"].startswith("x")] or ["r1"]
    for s in ins:
        for t in outs:
            ods.append((s, t))
    r.shuffle(ods)
    return ods[:6]


def topo_random(b, o):
    r = b.r
    n = r.randint(4, 9)
    for i in range(n):
        kw = {}
        if r.random() < 0.15:
            kw["flow_capacity"] = round(r.uniform(0.3, 2.0), 2)
        if r.random() < 0.15:
            kw["signal"] = [pick(r, [10, 20]), pick(r, [15, 30])]
        b.node(f"v{i}", r.uniform(0, 10), r.uniform(0, 10), **kw)
    # a cycle through all nodes keeps it strongly connected; then random extras, parallel links, dead ends
    perm = list(range(n))
    r.shuffle(perm)

    def sg(t):
        tgt = next(x for x in b.nodes if x["name"] == t)
        return {"signal_group": [r.randrange(len(tgt["signal"]))]} if "signal" in tgt else {}
    for a, c in zip(perm, perm[1:] + perm[:1]):
        b.link(f"v{a}", f"v{c}", **sg(f"v{c}"))
    for _ in range(r.randint(n // 2, 2 * n)):
        a, c = r.sample(range(n), 2)
        kw = sg(f"v{c}")
        if r.random() < 0.12:
            kw["capacity_in"] = round(r.uniform(0.1, 1.0), 2)
        if r.random() < 0.12:
            kw["capacity_out"] = round(r.uniform(0.1, 1.0), 2)
        b.link(f"v{a}", f"v{c}", **kw)
    if o.get("parallel") and r.random() < 0.6:
        l = pick(r, b.links)
        b.link(l["start"], l["end"])
    dead = None
    if o.get("deadend", True) and r.random() < 0.3:
        dead = b.node("dead", 11, 11)
        b.link(f"v{r.randrange(n)}", "dead")
    ods = []
    for _ in range(r.randint(3, 8)):
        s, t = r.sample(range(n), 2)
        ods.append((f"v{s}", f"v{t}"))
    if dead and r.random() < 0.6:
        ods.append((f"v{r.randrange(n)}", "dead"))
    return ods


def topo_trap(b, o):
    """destination unreachable behind a dead end, or dest isolated: trip abort"""
    r = b.r
    b.node("o", 0, 0)
    b.node("m", 1, 0)
    b.node("z", 2, 0)
    b.node("d", 2, 2)
    b.link("o", "m")
    b.link("m", "z")
    if r.random() < 0.6:
        b.link("m", "d")
        b.link("d", "m") if r.random() < 0.5 else None
    return [("o", "d"), ("o", "z"), ("o", "d")]


TOPOS = dict(corridor=topo_corridor, merge=topo_merge, diverge=topo_diverge, cross=topo_cross, grid=topo_grid,
             tworoute=topo_tworoute, ring=topo_ring, random=topo_random, trap=topo_trap)
DEFAULT_MIX = [("corridor", 2), ("merge", 2), ("diverge", 1.5), ("cross", 2), ("grid", 2), ("tworoute", 1.5), ("ring", 1.5), ("random", 3), ("trap", 0.5)]


def adjacency(spec):
    out = {}
    for l in spec["links"]:
        out.setdefault(l["start"], []).append(l)
    return out


def random_path(spec, r, s, t, maxlen=40, avoid_nodes=()):
    """a random loop-free path (list of link names) or None"""
    adj = adjacency(spec)
    for _ in range(20):
        cur, seen, path = s, {s}, []
        while cur != t and len(path) < maxlen:
            c = [l for l in adj.get(cur, []) if l["end"] not in seen]
            if not c:
                break
            l = pick(r, c)
            path.append(l["name"])
            cur = l["end"]
            seen.add(cur)
        if cur == t and path:
            return path
    return None


def looped(spec, r, path):
    """the path with a detour that returns to one of its nodes (never through the destination), possibly over links that the path uses again; None if there is none"""
    ends = {l["name"]: (l["start"], l["end"]) for l in spec["links"]}
    adj = adjacency(spec)
    dest = ends[path[-1]][1]
    for _ in range(8):
        i = r.randrange(1, len(path)) if len(path) > 1 else 0
        if not i:
            return None
        home = cur = ends[path[i - 1]][1]
        loop = []
        first = path[i] if r.random() < 0.7 else None        # start with the next link: it is used again after the detour
        while len(loop) < 6:
            c = [l for l in adj.get(cur, []) if l["end"] != dest]
            if not loop and first:
                c = [l for l in c if l["name"] == first]
            if not c:
                break
            back = [l for l in c if l["end"] == home]
            l = pick(r, back) if back and r.random() < 0.7 else pick(r, c)
            loop.append(l["name"])
            cur = l["end"]
            if cur == home:
                return path[:i] + loop + path[i:]
    return None


def generate(seed, **o):
    """o: topo=, mix=, hard=, odd_dt=, events=, steps=, parallel=, engine features (cpp_safe=True keeps to the common API) ..."""
    r = random.Random(seed * 7919 + 13)
    b = B(r)
    topo = o.get("topo") or choice_w(r, o.get("mix") or DEFAULT_MIX)
    b.big = o.get("extreme", True) and o.get("big", True) and seed % 7 == 3        # a large grid now and then
    ods = TOPOS[topo](b, o)
    deltan = o.get("deltan") or pick(r, [1, 1, 2, 3, 5, 5, 5, 10])
    rt = o.get("rt") or (pick(r, RT_ODD) if o.get("odd_dt") and r.random() < o["odd_dt"] else pick(r, RT))
    steps = o.get("steps") or pick(r, [60, 100, 150, 220])
    if o.get("extreme", True):      # a few worlds of unusual size
        if not o.get("deltan") and seed % 23 == 7:
            deltan = [15, 25, 40][seed % 3]
        if not o.get("steps") and seed % 19 == 4:
            steps = [400, 700][seed % 2]
    dt = deltan * rt
    horizon = steps * dt
    spec = dict(topo=topo, seed=seed, nodes=b.nodes, links=b.links)
    w = dict(deltan=deltan, reaction_time=rt, tmax=horizon + (pick(r, [0, 0, 0.4]) * dt if o.get("frac_tmax") else 0),
             random_seed=r.randrange(1 << 30), hard_deterministic_mode=o["hard"] if o.get("hard") is not None else r.random() < 0.3,
             duo_update_time=pick(r, [dt, 3 * dt, 10 * dt, 60, 300, 600, 13.0]), duo_update_weight=pick(r, [0.5, 0.5, 0.25, 1, 0.1]),
             duo_noise=pick(r, [0.01, 0.01, 0, 0.3]), eular_dt=pick(r, [60, 120, 120, 4 * dt]))
    if r.random() < 0.2:
        w["route_choice_update_gradual"] = True
    if r.random() < 0.15:
        w["no_cyclic_routing"] = True
    if r.random() < 0.15:
        w["adjust_node_capacity"] = True
    if r.random() < 0.3:
        w["instantaneous_TT_timestep_interval"] = pick(r, [1, 2, 3, 7])
    w.update(o.get("world", {}))
    spec["world"] = w
    # tolls on random links
    if r.random() < 0.2 and not o.get("no_toll"):
        for l in r.sample(b.links, min(2, len(b.links))):
            l.setdefault("toll", [[0, pick(r, [0, 50, 200])], [horizon / 2, pick(r, [0, 100])]])
    if r.random() < 0.1 and not o.get("no_closed"):
        l = pick(r, b.links)
        l["capacity_in" if r.random() < 0.6 else "capacity_out"] = 0
    # demand
    load = o.get("load") or pick(r, [0.3, 0.6, 1.0, 1.5, 2.5])
    budget = o.get("max_platoons", 160)
    demands = []
    for (s, t) in ods:
        t0 = pick(r, [0, 0, 0, horizon * 0.1, r.uniform(0, horizon * 0.3)])
        t1 = t0 + pick(r, [horizon * 0.3, horizon * 0.5, r.uniform(dt, horizon * 0.6)])
        flow = load * r.uniform(0.1, 0.8)
        flow = min(flow, budget / max(1, len(ods)) * deltan / max(t1 - t0, dt))
        d = dict(kind="od", orig=s, dest=t, t0=round(t0, 3), t1=round(t1, 3))
        if r.random() < 0.25:
            d["volume"] = round(flow * (t1 - t0), 3)
            if d["volume"] <= 0:
                d["volume"] = 1.0
        else:
            d["flow"] = round(flow, 4)
        demands.append(d)
    if o.get("multi_demand", True) and r.random() < 0.3 and len(b.nodes) >= 4:
        outs = {l["start"] for l in b.links}
        ins = {l["end"] for l in b.links}
        cand_o = [n["name"] for n in b.nodes if n["name"] in outs]
        cand_d = [n["name"] for n in b.nodes if n["name"] in ins]
        os_ = r.sample(cand_o, min(2, len(cand_o)))
        ds_ = [x for x in cand_d if x not in os_]
        if len(ds_) >= 2:
            ds_ = r.sample(ds_, 2)
            demands.append(dict(kind=pick(r, ["nodes2nodes", "nodes2nodes2"]), origs=os_, dests=ds_, t0=0, t1=round(horizon * 0.4, 3),
                                volume=round(r.uniform(5, 20) * deltan, 2)))
    spec["demands"] = demands
    # individual vehicles with routing constraints
    vehs = []
    if o.get("vehicles", True) and r.random() < o.get("p_vehicles", 0.6):
        for k in range(r.randint(2, 25)):
            s, t = pick(r, ods)
            v = dict(orig=s, dest=t, t=pick(r, [0, dt * r.randrange(0, max(2, steps // 2)), dt * r.randrange(0, 5)]))
            if r.random() < 0.4:
                v["name"] = f"car{k}"
            z = r.random()
            if z < 0.35:
                p = random_path(spec, r, s, t)
                if p:
                    v["route"] = p
            elif z < 0.5:
                v["prefer"] = [l["name"] for l in r.sample(b.links, min(len(b.links), 2))]
            elif z < 0.65:
                adj = adjacency(spec)
                avoid = []
                for n_, ls in adj.items():
                    if len(ls) >= 2 and r.random() < 0.5:
                        avoid.append(pick(r, ls)["name"])
                if avoid:
                    v["avoid"] = avoid
            vehs.append(v)
    spec["vehicles"] = vehs
    # run-time control events, applied at the end of the given step
    ev = []
    if o.get("events"):
        for _ in range(r.randint(1, o["events"])):
            k = r.randrange(1, max(2, steps - 2))
            l = pick(r, b.links)
            kinds = o.get("event_kinds", ["u", "u", "kappa", "cap_out", "cap_in", "node_cap", "signal", "phase"])
            kind = pick(r, kinds)
            if kind == "u":
                ev.append(dict(step=k, kind="u", link=l["name"], value=pick(r, [3, 6, 10, 18, 27])))
            elif kind == "kappa":
                ev.append(dict(step=k, kind="kappa", link=l["name"], value=pick(r, [0.1, 0.16, 0.2, 0.24]) * l["number_of_lanes"]))
            elif kind in ("cap_out", "cap_in"):
                ev.append(dict(step=k, kind=kind, link=l["name"], value=pick(r, [0, 0.2, 0.5, 1.0, 2.0])))
            elif kind == "node_cap":
                c = [n for n in b.nodes if n.get("flow_capacity")]
                if c:
                    ev.append(dict(step=k, kind="node_cap", node=pick(r, c)["name"], value=pick(r, [0.2, 0.5, 1.0, 2.0])))
            elif kind == "prio":
                ev.append(dict(step=k, kind="prio", link=l["name"], value=pick(r, [0, 0.5, 1, 2, 5])))
            elif kind == "toll":
                ev.append(dict(step=k, kind="toll", link=l["name"], toll=pick(r, [None, [[0, 100]], [[0, 30], [(k + 10) * dt, 300]]])))
            elif kind == "sg":
                c = [x for x in b.links if len(next(n for n in b.nodes if n["name"] == x["end"]).get("signal", [])) > 1]
                if c:
                    x = pick(r, c)
                    nph = len(next(n for n in b.nodes if n["name"] == x["end"])["signal"])
                    ev.append(dict(step=k, kind="sg", link=x["name"], value=sorted({r.randrange(nph), r.randrange(nph)})))
            elif kind in ("signal", "phase"):
                c = [n for n in b.nodes if len(n.get("signal", [])) > 1]
                if c:
                    n = pick(r, c)
                    if kind == "phase":
                        ev.append(dict(step=k, kind="phase", node=n["name"], phase=r.randrange(len(n["signal"])), t=pick(r, [0, 0, 5])))
                    else:
                        ev.append(dict(step=k, kind="signal", node=n["name"], signal=[pick(r, [5, 12, 25]) for _ in n["signal"]], reset=bool(r.random() < 0.5)))
    ev.sort(key=lambda e: e["step"])
    spec["events"] = ev
    extras(spec, random.Random(seed * 31 + 5), o, ods, dt, steps)
    if o.get("extreme", True):
        extreme(spec, random.Random(seed * 47 + 3), o)
    return spec


def extreme(spec, r, o):
    """sizes beyond the usual ones: long links, many lanes, cycles of many phases, jam density by lane or by default"""
    for l in spec["links"]:
        if "jam_density" in l and r.random() < 0.12:
            k = l.pop("jam_density")
            if r.random() < 0.5:
                l["jam_density_per_lane"] = round(k / l["number_of_lanes"], 6)
            elif l["number_of_lanes"] > 1 or r.random() < 0.5:
                l["jam_density_per_lane"] = 0.2
    if r.random() > o.get("p_extreme", 0.15):
        return
    z = r.random()
    if z < 0.4:
        for l in r.sample(spec["links"], min(len(spec["links"]), r.randint(1, 3))):
            l["length"] = round(l["length"] * r.choice([3, 6, 12]), 1)
    elif z < 0.7:
        for l in r.sample(spec["links"], min(len(spec["links"]), r.randint(1, 3))):
            n = r.choice([5, 6, 8])
            if "jam_density" in l:
                l["jam_density"] = l["jam_density"] / l["number_of_lanes"] * n
            l["number_of_lanes"] = n
    else:
        # longer cycles: further phases, the links get green in some of them
        busy = {e.get("node") for e in spec["events"] if e["kind"] in ("signal", "phase")} | {l["end"] for l in spec["links"] for e in spec["events"] if e.get("link") == l["name"] and e["kind"] == "sg"}
        for n in spec["nodes"]:
            if len(n.get("signal", [])) > 1 and n["name"] not in busy:
                k0 = len(n["signal"])
                n["signal"] = n["signal"] + [r.choice([5, 8, 15, 40]) for _ in range(r.randint(2, 4))]
                for l in spec["links"]:
                    if l["end"] == n["name"]:
                        g = list(l.get("signal_group", [0])) + [j for j in range(k0, len(n["signal"])) if r.random() < 0.4]
                        r.shuffle(g)
                        l["signal_group"] = g




def extras(spec, r, o, ods, dt, steps):
    """additions drawn from a stream of their own, so that they leave the rest of the scenario as it is"""
    deltan = spec["world"]["deltan"]
    for l in spec["links"]:
        if len(l.get("signal_group", [])) > 1 and r.random() < 0.5:
            l["signal_group"] = l["signal_group"][::-1]     # the order of the groups has no meaning
    for e in spec["events"]:
        if e["kind"] == "sg" and r.random() < 0.5:
            e["value"] = e["value"][::-1]
    if r.random() < o.get("pulses", 0.12):
        # short and intense: several platoons per step
        for _ in range(r.randint(1, 3)):
            s, t = pick(r, ods)
            k = r.randrange(0, max(1, steps // 3))
            spec["demands"].append(dict(kind="od", orig=s, dest=t, t0=k * dt, t1=(k + r.randint(1, 4)) * dt, flow=round(r.uniform(1.2, 3.5) * deltan / dt, 4)))
    more(spec, random.Random(spec["seed"] * 37 + 11), o, ods, dt, steps)


def more(spec, r, o, ods, dt, steps):
    """offsets in the old convention, plans replaced at run time with groups and offsets, vehicles with more constraints, changed or added at run time"""
    N = {n["name"]: n for n in spec["nodes"]}
    for n in spec["nodes"]:
        if len(n.get("signal", [])) > 1 and r.random() < 0.2:
            n["signal_offset_old"] = pick(r, [0, 7, 30.5, sum(n["signal"]) - 1])
    if o.get("events") and "node_cap" in o.get("event_kinds", []):
        # a node without a capacity gets one; a capacity is lifted
        for _ in range(pick(r, [0, 1, 2])):
            n = pick(r, spec["nodes"])
            spec["events"].append(dict(step=r.randrange(1, max(2, steps - 2)), kind="node_cap", node=n["name"], value=pick(r, [0.2, 0.4, 0.8, 1.5])))
        for e in spec["events"]:
            if e["kind"] == "node_cap" and r.random() < 0.15:
                e["value"] = None
        spec["events"].sort(key=lambda e: e["step"])
    last = {}
    for i, e in enumerate(spec["events"]):
        if e["kind"] == "signal":
            last[e["node"]] = i
            if r.random() < 0.3:
                e["offset"] = pick(r, [3, 20])
            elif r.random() < 0.2:
                e["offset_old"] = pick(r, [0, 4, 15.5])
    drop = set()
    for nn, i in last.items():
        e = spec["events"][i]
        if r.random() < 0.5:
            inn = [l["name"] for l in spec["links"] if l["end"] == nn]
            k = len(e["signal"])
            if r.random() < 0.5:        # another number of phases, from the start of the plan
                e["reset"] = True
                k = r.randint(2, 4)
                e["signal"] = [pick(r, [5, 12, 25]) for _ in range(k)]
                for j in range(i + 1, len(spec["events"])):
                    f = spec["events"][j]
                    if f.get("node") == nn or (f["kind"] == "sg" and f["link"] in inn):
                        drop.add(j)
            g = {l: sorted({r.randrange(k) for _ in range(pick(r, [1, 1, 2, 3]))}) for l in inn}
            e["groups"] = [[l for l in r.sample(inn, len(inn)) if j in g[l]] for j in range(k)]
    spec["events"] = [e for j, e in enumerate(spec["events"]) if j not in drop]
    rl = random.Random(spec["seed"] * 41 + 5)
    if rl.random() < o.get("single_phase", 0.25):
        # plans with a single phase stop nobody, whatever the groups of the links are
        for n in spec["nodes"]:
            if "signal" not in n and rl.random() < 0.4:
                n["signal"] = [pick(rl, [5, 30, 200])]
                for l in spec["links"]:
                    if l["end"] == n["name"] and rl.random() < 0.6:
                        l["signal_group"] = pick(rl, [[0], [1], [2, 1], [0, 3]])
    for v in spec["vehicles"]:
        if "route" in v and rl.random() < 0.4:
            v["route"] = looped(spec, rl, v["route"]) or v["route"]
    if not o.get("vex"):
        return
    adj = adjacency(spec)
    for v in spec["vehicles"]:
        if "route" in v and r.random() < 0.3:
            v["set_avoid"] = True
        if r.random() < 0.15:
            v["trip_abort"] = 0
    rp = random.Random(spec["seed"] * 43 + 7)
    kinds = [k for k in o.get("event_kinds", []) if k in ("veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem")]
    if not kinds:
        return
    ev = []
    for i in range(r.randint(2, 8)):
        kind = pick(r, kinds)
        k = r.randrange(0, max(2, steps - 5))
        s, t = pick(r, ods)
        if kind == "addveh":
            e = dict(step=k, kind=kind, orig=s, dest=t, t=(k + 1 + pick(r, [0, 0, 1, 5])) * dt, name=f"late{i}")
            if rp.random() < 0.15:
                e["t"] = rp.randrange(0, k + 1) * dt        # it should have left already: it leaves as soon as possible
            z = r.random()
            p = random_path(spec, r, s, t) if z < 0.3 else None
            if p:
                e["route"] = p
                e["set_avoid"] = r.random() < 0.5
            elif z < 0.5:
                e["prefer"] = [l["name"] for l in r.sample(spec["links"], min(len(spec["links"]), 2))]
            elif z < 0.7:
                e["avoid"] = [pick(r, ls)["name"] for ls in adj.values() if len(ls) >= 2 and r.random() < 0.5]
            if r.random() < 0.15:
                e["trip_abort"] = 0
            ev.append(e)
        elif kind == "adddem":
            t0 = (k + 1 + pick(r, [0, 3])) * dt
            ev.append(dict(step=k, kind=kind, orig=s, dest=t, t0=t0, t1=t0 + pick(r, [4, 10]) * dt, flow=round(pick(r, [0.25, 0.5, 1.5]) * spec["world"]["deltan"] / dt, 5)))
        elif spec["vehicles"]:
            j = r.randrange(len(spec["vehicles"]))
            v = spec["vehicles"][j]
            v.setdefault("name", f"car{j}")
            if kind == "veh_route":
                p = random_path(spec, r, v["orig"], v["dest"])
                if p:
                    ev.append(dict(step=k, kind=kind, veh=v["name"], route=p, set_avoid=r.random() < 0.5))
            elif "route" in v:
                continue
            elif kind == "veh_avoid" and "prefer" not in v:
                ev.append(dict(step=k, kind=kind, veh=v["name"], links=[pick(r, ls)["name"] for ls in adj.values() if len(ls) >= 2 and r.random() < 0.6]))
                v["avoids"] = True
            elif kind == "veh_prefer" and "avoid" not in v and "avoids" not in v:
                v.setdefault("prefer", [])
                ev.append(dict(step=k, kind=kind, veh=v["name"], links=[l["name"] for l in r.sample(spec["links"], min(len(spec["links"]), pick(r, [1, 3, 6])))]))
    spec["events"] = sorted(spec["events"] + ev, key=lambda e: e["step"])


def toll_fn(table):
    def f(t):
        v = 0
        for t0, x in table:
            if t >= t0:
                v = x
        return v
    return f


def build_world(spec, cpp=False, **over):
    kw = dict(name="vmon", print_mode=0, save_mode=0, show_mode=0)
    kw.update(spec["world"])
    kw.update(over)
    W = env.make_world(cpp=cpp, **kw)
    build_network(W, spec)
    build_demand(W, spec)
    return W


def build_network(W, spec):
    for n in spec["nodes"]:
        W.addNode(n["name"], n["x"], n["y"], **{k: v for k, v in n.items() if k not in ("name", "x", "y")})
    for l in spec["links"]:
        kw = {k: v for k, v in l.items() if k not in ("name", "start", "end", "length", "toll")}
        if l.get("toll"):
            kw["congestion_pricing"] = toll_fn(l["toll"])
        W.addLink(l["name"], l["start"], l["end"], l["length"], **kw)


def build_demand(W, spec):
    for d in spec["demands"]:
        kw = {k: d[k] for k in ("flow", "volume", "attribute") if k in d}
        if d["kind"] == "od":
            W.adddemand(d["orig"], d["dest"], d["t0"], d["t1"], **kw)
        elif d["kind"] == "nodes2nodes":
            W.adddemand_nodes2nodes(d["origs"], d["dests"], d["t0"], d["t1"], **kw)
        elif d["kind"] == "nodes2nodes2":
            W.adddemand_nodes2nodes2(d["origs"], d["dests"], d["t0"], d["t1"], **kw)
        elif d["kind"] == "area2area":
            W.adddemand_area2area(*d["args"], d["t0"], d["t1"], **kw)
        elif d["kind"] == "area2area2":
            W.adddemand_area2area2(*d["args"], d["t0"], d["t1"], **kw)
        elif d["kind"] == "p2p":
            W.adddemand_point2point(*d["args"], d["t0"], d["t1"], **kw)
    for v in spec["vehicles"]:
        kw = {}
        if "name" in v:
            kw["name"] = v["name"]
        if "prefer" in v:
            kw["links_prefer"] = v["prefer"]
        if "avoid" in v:
            kw["links_avoid"] = v["avoid"]
        if "attribute" in v:
            kw["attribute"] = v["attribute"]
        add_vehicle(W, v, kw)


def add_vehicle(W, v, kw):
    if "trip_abort" in v:
        kw["trip_abort"] = v["trip_abort"]
    veh = W.addVehicle(v["orig"], v["dest"], v["t"], **kw)
    if "route" in v:
        if v.get("set_avoid"):
            veh.enforce_route(v["route"], set_avoid=True)
        else:
            veh.enforce_route(v["route"])


def apply_event(W, e):
    k = e["kind"]
    if k == "u":
        W.get_link(e["link"]).change_free_flow_speed(e["value"])
    elif k == "kappa":
        W.get_link(e["link"]).change_jam_density(e["value"])
    elif k == "cap_out":
        W.get_link(e["link"]).capacity_out = e["value"]
    elif k == "cap_in":
        W.get_link(e["link"]).capacity_in = e["value"]
    elif k == "node_cap":
        W.get_node(e["node"]).flow_capacity = e["value"]
    elif k == "signal":
        kw = {a: e[b] for a, b in (("groups", "groups"), ("signal_offset", "offset"), ("signal_offset_old", "offset_old")) if b in e}
        if e.get("reset"):
            kw["reset"] = True
        W.get_node(e["node"]).override_signal(list(e["signal"]), **kw)
    elif k == "phase":
        n = W.get_node(e["node"])
        n.signal_phase = e["phase"]
        n.signal_t = e["t"]
    elif k == "prio":
        W.get_link(e["link"]).merge_priority = e["value"]
    elif k == "sg":
        W.get_link(e["link"]).signal_group = list(e["value"])
    elif k == "toll":
        W.get_link(e["link"]).congestion_pricing = toll_fn(e["toll"]) if e["toll"] else None
    elif k == "veh_avoid":
        W.VEHICLES[e["veh"]].set_links_avoid(list(e["links"]))
    elif k == "veh_prefer":
        W.VEHICLES[e["veh"]].set_links_prefer(list(e["links"]))
    elif k == "veh_route":
        v = W.VEHICLES[e["veh"]]
        if v.state == "home":
            v.enforce_route(list(e["route"]), set_avoid=e["set_avoid"])
    elif k == "addveh":
        kw = dict(name=e["name"])
        if "prefer" in e:
            kw["links_prefer"] = e["prefer"]
        if "avoid" in e:
            kw["links_avoid"] = e["avoid"]
        add_vehicle(W, e, kw)
    elif k == "adddem":
        W.adddemand(e["orig"], e["dest"], e["t0"], e["t1"], e["flow"])
    else:
        raise ValueError(k)
