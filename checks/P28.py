"""P28 names and lookups: random sequences of additions, clashes and lookups against a reference registry, in both engines."""
import hashlib, math, os, random, tempfile
from collections import defaultdict
import numpy as np
from vmon import env

TECHNIQUE = "model-based monitoring of API call sequences: after every call the registries of the real world are compared with a reference registry, and every lookup answer is judged by identity"
LEVEL_NOTE = "Exploration of sampled call sequences in both engines."
ASSUME = ["the C++ engine may refuse the automatic renaming of a node (its tests pin the error); it then has to leave the world unchanged",
          "in the Python engine a default vehicle name taken by the user before raises the duplicate name error"]
RULE = ("Sequences of 30-90 calls by seed: nodes, links, vehicles and demands with fresh, duplicate, default, numeric, empty and non-ASCII names, with and without automatic renaming, lookups by name, numpy string, object, foreign object and unknown values, before and during a run. "
        "Non-trivial: at least one refused or renamed duplicate; distinct by the hash of the resulting names.")
REQUIRED = ["calls", "duplicate-refused", "renamed-link", "renamed-vehicle", "renamed-node", "default-link-name", "default-vehicle-names", "lookup-name", "lookup-object", "lookup-numpy", "lookup-unknown", "lookup-foreign", "foreign-endpoint",
            "registry-compared", "nearest", "area", "route-lookups", "route-unknown", "mid-run-additions", "failed-calls-unchanged", "numeric-names", "csv", "scenarios-python", "scenarios-cpp"]
BUDGET = dict(quick=30, thorough=600)


def jobs(tier, seed):
    n = 400 if tier == "quick" else 12000
    base = seed * 1_000_003 + 28 * 20_011
    out = [dict(seed=(base + i) % (1 << 31), cpp=i % 2 == 1, so="plain" if i % 2 else None) for i in range(n)]
    out.sort(key=lambda j: j["cpp"])
    return out


NAMES = ["a", "b", "A", "n1", "node 1", "0", "1", "2", "7", "", "交差点", "x-y", "a-b", "veh_0", "a_renamed", "orig"]


class C:
    def __init__(s, seed, cpp):
        s.r, s.cpp = random.Random(seed ^ 0xC28), cpp
        s.dt = 5
        s.W = env.make_world(cpp, name="w", deltan=5, tmax=600, print_mode=0, save_mode=0, show_mode=0, random_seed=seed % 100000)
        s.other = env.make_world(cpp, name="o", deltan=5, tmax=600, print_mode=0, save_mode=0, show_mode=0, random_seed=3)
        s.on = [s.other.addNode(n, i, 0) for i, n in enumerate(["a", "foreign", "n1"])]
        s.ol = [s.other.addLink(n, s.on[0], s.on[1], 100) for n in ["a-b", "foreignlink"]]
        s.N, s.L, s.V = [], [], []      # reference registries: (name, object, details)
        s.v, s.c = [], defaultdict(int)
        s.log = []
        s.started = False
        s.counter = 0

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg + " | last calls: " + "; ".join(s.log[-5:])))

    def name(s, reg):
        x = s.r.random()
        if x < 0.25 and reg:
            return s.r.choice(reg)[0]
        if x < 0.6:
            return s.r.choice(NAMES)
        s.counter += 1
        return f"{s.r.choice(['p', 'q', 'z_'])}{s.counter}"

    # ---- additions ---------------------------------------------------------------------------------------------------------
    def add(s, kind, reg, name, auto, call):
        names = {x[0] for x in reg}
        dup = name in names
        before = s.shot()
        s.log.append(f"add {kind} {name!r} auto_rename={auto}" + (" (duplicate)" if dup else ""))
        try:
            o = call()
        except (ValueError, RuntimeError) as e:
            if not dup:
                if kind == "vehicle" and "already used" in str(e) and not s.cpp:
                    s.c["default-name-taken"] += 1     # the default name was taken by the user before
                    s.same(before)
                    return None
                raise
            s.c["duplicate-refused"] += 1
            if auto and not (kind == "node" and s.cpp):
                s.bad("auto-rename", f"{kind} {name!r} with auto_rename is refused: {e}")
            s.same(before)
            return None
        if dup:
            if not auto:
                s.bad("duplicate", f"a second {kind} named {name!r} is accepted as {o.name!r}")
            s.c["renamed-" + kind] += 1
            if o.name in names:
                s.bad("duplicate", f"{kind} {name!r} is renamed to {o.name!r}, which is used as well")
        elif name is not None and o.name != name:
            s.bad("name", f"{kind} {name!r} is called {o.name!r}")
        return o

    def node(s):
        nm, auto = s.name(s.N), s.r.random() < 0.4
        x, y = s.r.uniform(-5, 5), s.r.uniform(-5, 5)
        o = s.add("node", s.N, nm, auto, lambda: s.W.addNode(nm, x, y, auto_rename=auto))
        if o is not None:
            s.N.append((o.name, o, (x, y)))

    def ref(s, n):
        """a node argument: name, numpy string, object or an object of another world with that name"""
        x = s.r.random()
        if x < 0.1:
            for o in s.on:
                if o.name == n[0]:
                    s.c["foreign-endpoint"] += 1
                    return o
        return n[0] if x < 0.5 else np.str_(n[0]) if x < 0.6 else n[1]

    def link(s):
        if not s.N:
            return
        a, b = s.r.choice(s.N), s.r.choice(s.N)
        if a is b:
            return
        nm, auto = s.name(s.L), s.r.random() < 0.4
        if s.r.random() < 0.2:
            nm = None
        eff = nm if nm is not None else a[0] + "-" + b[0]
        s.c["default-link-name"] += nm is None
        o = s.add("link", s.L, eff, auto, lambda: s.W.addLink(nm, s.ref(a), s.ref(b), 100.0, auto_rename=auto))
        if o is not None:
            s.L.append((o.name, o, (a[1], b[1])))
            if o.start_node is not a[1] or o.end_node is not b[1]:
                s.bad("endpoint", f"link {o.name!r} from {a[0]!r} to {b[0]!r} has the end nodes {o.start_node}, {o.end_node}")

    def vehicle(s):
        if len(s.N) < 2:
            return
        a, b = s.r.sample(s.N, 2)
        nm, auto = s.name(s.V), s.r.random() < 0.4
        if s.r.random() < 0.4:
            nm = None
            s.c["default-vehicle-names"] += 1
        elif nm.isdigit():
            s.c["numeric-names"] += 1
        kw = {} if nm is None else dict(name=nm)
        t = s.r.uniform(0, 500)
        o = s.add("vehicle", s.V, nm, auto, lambda: s.W.addVehicle(a[0] if s.r.random() < 0.5 else a[1], b[0] if s.r.random() < 0.5 else b[1], t, auto_rename=auto, **kw))
        if o is not None:
            s.V.append((o.name, o, (a[1], b[1])))
            if o.name in {x[0] for x in s.V[:-1]}:
                s.bad("duplicate", f"two vehicles are called {o.name!r}")
            s.c["mid-run-additions"] += s.started

    def demand(s):
        if len(s.N) < 2:
            return
        a, b = s.r.sample(s.N, 2)
        n0 = len(s.V)
        s.log.append("adddemand")
        try:
            s.W.adddemand(a[0], b[1], 0, 200, volume=s.r.choice([5, 20, 40]))
        except ValueError as e:
            if "already used" not in str(e) or s.cpp:
                raise
            s.c["default-name-taken"] += 1
        new = list(s.W.VEHICLES.values())[n0:]
        for o in new:
            s.V.append((o.name, o, (a[1], b[1])))
        s.c["default-vehicle-names"] += len(new)

    # ---- registries ----------------------------------------------------------------------------------------------------------
    def shot(s):
        W = s.W
        return [(n.name, n.id, tuple(n.inlinks), tuple(n.outlinks)) for n in W.NODES], [(l.name, l.id) for l in W.LINKS], [(k, v.id) for k, v in W.VEHICLES.items()], sorted(W.NODES_NAME_DICT), sorted(W.LINKS_NAME_DICT), sorted(W.VEHICLES_LIVING)

    def same(s, before):
        s.c["failed-calls-unchanged"] += 1
        a = s.shot()
        if a != before:
            s.bad("refused-call", f"a refused call changed the world: {[(x, y) for x, y in zip(before, a) if x != y][0]}"[:600])

    def compare(s):
        W = s.W
        s.c["registry-compared"] += 1
        for kind, reg, objs, dic in (("node", s.N, W.NODES, W.NODES_NAME_DICT), ("link", s.L, W.LINKS, W.LINKS_NAME_DICT)):
            if len(objs) != len(reg) or any(o is not x[1] for o, x in zip(objs, reg)):
                s.bad("registry", f"{kind}s are {[o.name for o in objs]}, added {[x[0] for x in reg]}")
                return
            for i, (nm, o, _) in enumerate(reg):
                if o.name != nm or o.id != i:
                    s.bad("registry", f"{kind} number {i} {nm!r} has name {o.name!r} and id {o.id}")
            if len(dic) != len(reg) or any(dic.get(x[0]) is not x[1] for x in reg):
                s.bad("registry", f"{kind} names {list(dic)} do not map to the {len(reg)} {kind}s {[x[0] for x in reg]}")
        ins, outs = defaultdict(dict), defaultdict(dict)
        for nm, l, (a, b) in s.L:
            outs[a.id][nm] = l
            ins[b.id][nm] = l
            if l.start_node is not a or l.end_node is not b:
                s.bad("endpoint", f"end nodes of link {nm!r} changed")
        for nm, n, _ in s.N:
            if dict(n.inlinks) != ins[n.id] or dict(n.outlinks) != outs[n.id]:
                s.bad("in-out", f"node {nm!r}: inlinks {list(n.inlinks)}, outlinks {list(n.outlinks)}; expected {list(ins[n.id])}, {list(outs[n.id])}")
        vs = list(W.VEHICLES.items())
        if len(vs) != len(s.V):
            s.bad("registry", f"{len(vs)} vehicles registered, {len(s.V)} added")
            return
        for i, ((k, v), (nm, o, (a, b))) in enumerate(zip(vs, s.V)):
            if v is not o or k != nm or v.name != nm or v.id != i or v.orig is not a or v.dest is not b:
                s.bad("registry", f"vehicle number {i} {nm!r} ({a.name}->{b.name}) is registered as {k!r}: name {v.name!r}, id {v.id}, {v.orig}->{v.dest}")
                return
        for k, v in W.VEHICLES_LIVING.items():
            if W.VEHICLES.get(k) is not v:
                s.bad("registry", f"living vehicle {k!r} is not the vehicle of that name")

    # ---- lookups -------------------------------------------------------------------------------------------------------------
    def lookup(s):
        W, r = s.W, s.r
        for get, reg, foreign, what in ((W.get_node, s.N, s.on, "node"), (W.get_link, s.L, s.ol, "link")):
            names = {x[0]: x[1] for x in reg}
            if reg:
                nm, o, _ = r.choice(reg)
                for arg, c in ((nm, "lookup-name"), (np.str_(nm), "lookup-numpy"), (o, "lookup-object")):
                    s.c[c] += 1
                    g = get(arg)
                    if g is not o:
                        s.bad("lookup", f"{what} {arg!r} is looked up as {g!r}")
            for f in foreign:
                s.c["lookup-foreign"] += 1
                try:
                    g = get(f)
                except Exception as e:
                    g = None
                    s.clear(e, f)
                if g is not names.get(f.name) and not (g is None and f.name in names):
                    s.bad("lookup", f"{what} {f.name!r} of another world is looked up as {g!r} of {'this' if getattr(g, 'W', None) is W else 'another'} world")
            unknown = [x for x in ["nothing", "zz", "A ", "a-", "-1"] if x not in names]
            for x in r.sample(unknown, min(2, len(unknown))) + [r.choice([7, 0, 1.5, ("a",), object(), True])]:
                s.c["lookup-unknown"] += 1
                try:
                    g = get(x)
                except Exception as e:
                    s.clear(e, x)
                    continue
                s.bad("lookup", f"unknown {what} {x!r} is looked up as {g!r}")
        if s.L:
            for links in ([r.choice(s.L)], ):
                p = [links[0]]
                while len(p) < 3:
                    nx = [x for x in s.L if x[2][0] is p[-1][2][1]]
                    if not nx:
                        break
                    p.append(r.choice(nx))
                R = W.defRoute([x[0] if r.random() < 0.5 else x[1] for x in p])
                s.c["route-lookups"] += 1
                if len(R.links) != len(p) or any(a is not b[1] for a, b in zip(R.links, p)):
                    s.bad("lookup", f"route {[x[0] for x in p]} is {R.links}")
                if [l for l in R] != [x[1] for x in p]:
                    s.bad("lookup", f"route {[x[0] for x in p]} iterates over {[l for l in R]}")
            try:
                s.c["route-unknown"] += 1
                R = W.defRoute([s.L[0][0], "no such link"])
                s.bad("lookup", f"a route over an unknown link is accepted: {R.links}")
            except Exception as e:
                s.clear(e, "no such link")

    def clear(s, e, arg):
        if not str(e) or isinstance(e, (AttributeError, UnboundLocalError, IndexError)):
            s.bad("unclear-error", f"looking up {arg!r} raises {type(e).__name__}: {e}")

    def spatial(s):
        if not s.N:
            return
        r = s.r
        x, y, rad = r.uniform(-6, 6), r.uniform(-6, 6), r.uniform(0.2, 6)
        d = [math.hypot(a - x, b - y) for _, _, (a, b) in s.N]
        g = s.W.get_nearest_node(x, y)
        s.c["nearest"] += 1
        if not any(g is o and dd <= min(d) + 1e-9 for (_, o, _), dd in zip(s.N, d)):
            s.bad("nearest", f"nearest node to {(x, y)} is {g!r}, the distances are {[(n[0], round(q, 3)) for n, q in zip(s.N, d)][:6]}")
        g = s.W.get_nodes_in_area(x, y, rad)
        s.c["area"] += 1
        want = {o.name for (_, o, _), q in zip(s.N, d) if q < rad}
        if {o.name for o in g} != want or len(g) != len(want):
            s.bad("area", f"nodes within {rad} of {(x, y)}: {[o.name for o in g]}, expected {sorted(want)}")

    def csv(s):
        """nodes and links loaded from files are named and connected as the files say"""
        r = s.r
        k = r.randint(2, 5)
        ns = [f"c{s.counter}_{i}" for i in range(k)]
        s.counter += 1
        ls = [(f"k{s.counter}_{i}", *r.sample(ns, 2)) for i in range(k)]
        xy = [(r.uniform(-5, 5), r.uniform(-5, 5)) for _ in ns]
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, "n.csv"), "w") as f:
                f.write("name,x,y\n" + "".join(f"{n},{x!r},{y!r}\n" for n, (x, y) in zip(ns, xy)))
            with open(os.path.join(d, "l.csv"), "w") as f:
                f.write("name,start,end,length,u,kappa,merge_priority\n" + "".join(f"{n},{a},{b},{100 + i},15,0.2,1\n" for i, (n, a, b) in enumerate(ls)))
            s.log.append("csv")
            s.W.generate_Nodes_from_csv(os.path.join(d, "n.csv"))
            s.W.generate_Links_from_csv(os.path.join(d, "l.csv"))
        s.c["csv"] += 1
        for n, p in zip(ns, xy):
            s.N.append((n, s.W.get_node(n), p))
        idx = {x[0]: x[1] for x in s.N}
        for i, (n, a, b) in enumerate(ls):
            o = s.W.get_link(n)
            s.L.append((n, o, (idx[a], idx[b])))
            if o.length != 100 + i or o.u != 15:
                s.bad("csv", f"link {n} has length {o.length}, speed {o.u}")

    def script(s):
        r = s.r
        total = r.randint(30, 90)
        start = r.randint(20, total)
        for i in range(total):
            if s.v:
                return
            s.c["calls"] += 1
            if i == start and s.L and s.V:
                s.log.append("exec_simulation")
                s.W.exec_simulation(until_t=r.uniform(20, 300))
                s.started = True
            if s.started:
                k = r.choice(["vehicle", "vehicle", "lookup", "lookup", "spatial", "run"])
            else:
                k = r.choice(["node"] * 4 + ["link"] * 5 + ["vehicle"] * 3 + ["demand", "lookup", "lookup", "spatial"] + (["csv"] if r.random() < 0.2 else []))
            if k == "run":
                if s.W.check_simulation_ongoing():
                    s.W.exec_simulation(duration_t2=s.W.DELTAT)
            else:
                getattr(s, k)()
            s.compare()


def run(job):
    with env.quiet():
        s = C(job["seed"], job["cpp"])
        s.c["scenarios-cpp" if job["cpp"] else "scenarios-python"] += 1
        s.script()
    h = hashlib.blake2b(repr(([x[0] for x in s.N], [x[0] for x in s.L], [x[0] for x in s.V])).encode(), digest_size=8).hexdigest()
    res = dict(viol=s.v, count=dict(s.c), sig=h)
    if job["seed"] % 97 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if job["cpp"] else "python", nodes=[x[0] for x in s.N][:12], links=[x[0] for x in s.L][:12], vehicles=len(s.V), started=s.started)
    return res
