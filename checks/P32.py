"""P32 worlds read from CSV tables equal the worlds the tables describe."""
import csv, io, locale, math, os, random, tempfile
from collections import Counter
import numpy as np
from vmon import scen, env, digest

TECHNIQUE = "differential trace oracle: a world read from generated (and the shipped) CSV tables is compared object by object with an independent reading of the rows and, after running, bit for bit with a world built through the calls the rows stand for"
LEVEL_NOTE = "Exploration of sampled tables, both engines. Rows of the documented column layouts only; blank lines inside a table are not part of the layout."
ASSUME = ["columns are those of the shipped tables: name,x,y / name,start,end,length,u,kappa,merge_priority / orig,dest,start_t,end_t,q[,volume], each optionally followed by an empty column",
          "an empty volume cell means that the flow column counts"]
RULE = ("Networks and demands of all topologies written as CSV tables with and without header, trailing column, quoting, CRLF line ends, names that look like numbers or contain commas and spaces, volume cells given, empty and absent; read by one call or three, after or before objects created by calls, in both engines; the shipped tables. "
        "Non-trivial: at least one vehicle entered a link; distinct by the final picture.")
REQUIRED = ["nodes-compared", "links-compared", "vehicles-compared", "runs-compared", "header", "no-header", "trailing-column", "quoted", "crlf", "numeric-names", "odd-names", "volume", "empty-volume", "mixed-volume", "tmax", "three-calls", "objects-before",
            "rejected-row", "saved-again", "shipped", "scenarios-python", "scenarios-cpp"]
BUDGET = dict(quick=40, thorough=600)


UTF8 = locale.getpreferredencoding(False).lower().replace("-", "") == "utf8"


def jobs(tier, seed):
    n = 900 if tier == "quick" else 16000
    base = seed * 1_000_003 + 32 * 20_011
    out = [dict(seed=(base + i) % (1 << 31), cpp=i % 2 == 1, so="plain" if i % 2 else None, timeout=200, kind="sampled") for i in range(n)]
    out += [dict(seed=base + i, cpp=c, so="plain" if c else None, timeout=240, kind="shipped", which=w)
            for i, (w, c) in enumerate([("uroboros", False), ("uroboros", True), ("siouxfalls", True), ("siouxfalls", False)])]
    return out


def num(r, v):
    """a decimal cell that reads back as v"""
    if v == int(v) and abs(v) < 1e12 and r.random() < 0.7:
        return str(int(v))
    return repr(float(v))


def table(r, c, header, rows, key):
    """-> text of one CSV file"""
    head, trail = r.random() < 0.7, r.random() < 0.3
    quote = r.random() < 0.25
    lt = "\r\n" if r.random() < 0.25 else "\n"
    c["header" if head else "no-header"] += 1
    if trail:
        c["trailing-column"] += 1
    if quote:
        c["quoted"] += 1
    if lt == "\r\n":
        c["crlf"] += 1
    f = io.StringIO(newline="")
    w = csv.writer(f, lineterminator=lt, quoting=csv.QUOTE_ALL if quote else csv.QUOTE_MINIMAL)
    for row in ([header] if head else []) + rows:
        w.writerow(list(row) + ([""] if trail else []))
    return f.getvalue()


def put(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    return p


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def check_objects(W, nodes, links, c, bad, first=(0, 0)):
    N, L = W.NODES[first[0]:], W.LINKS[first[1]:]
    c["nodes-compared"] += len(nodes)
    if [n.name for n in N] != [n[0] for n in nodes]:
        bad("nodes", f"the node table has {[n[0] for n in nodes][:8]}, the world {[n.name for n in N][:8]}")
        return
    for o, (name, x, y) in zip(N, nodes):
        if o.x != x or o.y != y:
            bad("nodes", f"node {name} is at {(o.x, o.y)}, its row says {(x, y)}")
    c["links-compared"] += len(links)
    if [l.name for l in L] != [l[0] for l in links]:
        bad("links", f"the link table has {[l[0] for l in links][:8]}, the world {[l.name for l in L][:8]}")
        return
    for o, (name, a, b, ln, u, k, mp) in zip(L, links):
        got = (o.start_node.name, o.end_node.name, o.length, o.u, o.kappa, o.merge_priority)
        if got[:2] != (a, b) or not all(near(p, q) for p, q in zip(got[2:], (ln, u, k, mp))):
            bad("links", f"link {name}: {got}, its row says {(a, b, ln, u, k, mp)}")
        if W.get_link(name) is not o or int(o.number_of_lanes) != 1:
            bad("links", f"link {name}: looked up as {W.get_link(name)!r}, {o.number_of_lanes} lanes")


def veh(W):
    return [(v.name, v.orig.name, v.dest.name, v.departure_time) for v in W.VEHICLES.values()]


def run(job):
    with env.quiet():
        return shipped(job) if job["kind"] == "shipped" else sampled(job)


def run_world(W):
    W.exec_simulation()
    return W


def sampled(job):
    r = random.Random(job["seed"] * 9973 + 32)
    cpp = job["cpp"]
    c = Counter()
    v = []

    def bad(rule, msg):
        if len(v) < 5:
            v.append((rule, msg))
    c["scenarios-cpp" if cpp else "scenarios-python"] += 1
    spec = scen.generate(job["seed"])
    # names
    style = r.choice(["plain", "plain", "numeric", "odd"])
    def rename(names, pre):
        if style == "numeric":
            pool = r.sample(range(1, 4 * len(names) + 5), len(names))
            return {n: str(k) for n, k in zip(names, pool)}
        if style == "odd":
            return {n: r.choice(["{} x", "{},b", "a \"{}\"", "{}-1.5", "{}'", "\u90fd{}" if UTF8 else "t{}", "start {}"]).format(n) for n in names}
        return {n: n for n in names}
    nm = rename([n["name"] for n in spec["nodes"]], "n")
    lm = rename([l["name"] for l in spec["links"]], "l")
    c["numeric-names" if style == "numeric" else "odd-names" if style == "odd" else "plain-names"] += 1
    nodes = [(nm[n["name"]], float(n["x"]) + r.choice([0, 0.1, -139.7654321]), float(n["y"]) * r.choice([1, 1e-3])) for n in spec["nodes"]]
    links = [(lm[l["name"]], nm[l["start"]], nm[l["end"]], l["length"], l["free_flow_speed"], l.get("jam_density", 0.2), l.get("merge_priority", r.choice([1, 0.5, 2]))) for l in spec["links"]]
    dem = []
    for d in spec["demands"]:
        if d["kind"] != "od":
            continue
        t0, t1 = d["t0"], d["t1"]
        fl = d.get("flow", -1) if d.get("flow") and d.get("flow", -1) > 0 else round(r.uniform(0.05, 0.5), 3)
        dem.append([nm[d["orig"]], nm[d["dest"]], t0, t1, fl, None])
    ods = [tuple(x[:2]) for x in dem] or [(nodes[0][0], nodes[-1][0])]
    tmax = spec["world"].get("tmax", 1000)
    for _ in range(r.randint(1, 5)):
        a, b = r.choice(ods)
        t0 = r.uniform(0, tmax * 0.5)
        if r.random() < 0.6:
            t0 = round(t0)
        dem.append([a, b, t0, t0 + r.choice([60, 120, 300, 77.5]), round(r.uniform(0.05, 0.6), 3), None])
    for row in dem:
        z = r.random()
        if z < 0.3:
            row[5] = r.choice([5, 10, 20, 37.0, 12.5])
            if r.random() < 0.5:
                row[4] = r.choice([0, 0.1, -1])
        elif z < 0.45:
            row[5] = ""
    vol = [x[5] for x in dem]
    c["volume"] += sum(isinstance(x, (int, float)) for x in vol)
    c["empty-volume"] += sum(x == "" for x in vol)
    if len({type(x) in (int, float) for x in vol}) > 1:
        c["mixed-volume"] += 1
    ntext = table(r, c, ["name", "x", "y"], [(n, num(r, x), num(r, y)) for n, x, y in nodes], "n")
    ltext = table(r, c, ["name", "start", "end", "length", "u", "kappa", "merge_priority"], [(n, a, b, *[num(r, z) for z in rest]) for n, a, b, *rest in links], "l")
    dtext = table(r, c, ["orig", "dest", "start_t", "end_t", "q"] + (["volume"] if any(x is not None for x in vol) else []),
                  [(a, b, num(r, t0), num(r, t1), num(r, fl)) + (() if w is None else ("",) if w == "" else (num(r, w),)) for a, b, t0, t1, fl, w in dem], "d")
    world = dict(spec["world"])
    arg_tmax = None
    if r.random() < 0.4:
        arg_tmax = r.choice([tmax, tmax + 100, max(200, tmax // 2), float(tmax)])
        c["tmax"] += 1
        if r.random() < 0.3:
            world.pop("tmax", None)
    extra = r.random() < 0.25
    if extra:
        c["objects-before"] += 1

    def before(W):
        if extra:
            W.addNode("zz extra 1", -7, 3)
            W.addNode("zz extra 2", -8, 3)
            W.addLink("zz extra link", "zz extra 1", "zz extra 2", length=321, jam_density=0.15)
            W.adddemand("zz extra 1", "zz extra 2", 0, 100, 0.2)

    def fresh():
        kw = dict(world)
        return env.make_world(cpp, **kw)

    W = fresh()
    before(W)
    n0 = (len(W.NODES), len(W.LINKS))
    with tempfile.TemporaryDirectory(prefix="vmon32-") as d:
        pn, pl, pd = put(d, "n.csv", ntext), put(d, "l.csv", ltext), put(d, "d.csv", dtext)
        # a row that cannot be read is reported, not skipped
        if r.random() < 0.2:
            which = r.choice("nld")
            Wb = fresh()
            try:
                if which == "n":
                    Wb.generate_Nodes_from_csv(put(d, "b.csv", ntext + "bad node,1.5x,2\n"))
                elif which == "l":
                    Wb.generate_Nodes_from_csv(pn)
                    Wb.generate_Links_from_csv(put(d, "b.csv", ltext + 'bad link,"%s","%s",1000,abc,0.2,1\n' % (nodes[0][0].replace('"', '""'), nodes[-1][0].replace('"', '""'))))
                else:
                    Wb.generate_Nodes_from_csv(pn)
                    Wb.generate_Links_from_csv(pl)
                    Wb.generate_demand_from_csv(put(d, "b.csv", dtext + '"%s",no such node,0,100,0.5\n' % nodes[0][0].replace('"', '""')))
                bad("rejected", f"a row that cannot be read ({ {'n': 'x = 1.5x', 'l': 'u = abc', 'd': 'unknown destination'}[which]}) was accepted without an error")
            except Exception:
                c["rejected-row"] += 1
        if r.random() < 0.5 or arg_tmax is not None:
            kw = {} if arg_tmax is None else dict(tmax=arg_tmax)
            W.load_scenario_from_csv(pn, pl, pd, **kw)
        else:
            c["three-calls"] += 1
            W.generate_Nodes_from_csv(pn)
            W.generate_Links_from_csv(pl)
            W.generate_demand_from_csv(pd)
    want_tmax = arg_tmax if arg_tmax is not None else tmax
    if arg_tmax is not None and W.TMAX != arg_tmax:
        bad("tmax", f"tmax={arg_tmax} was given to load_scenario_from_csv, the world has {W.TMAX}")
    if arg_tmax is None and "tmax" in world and W.TMAX != world["tmax"]:
        bad("tmax", f"the world was created with tmax {world['tmax']}, after loading it has {W.TMAX}")
    check_objects(W, nodes, links, c, bad, n0)
    # the calls the rows stand for
    world2 = dict(world, tmax=want_tmax)
    V = env.make_world(cpp, **world2)
    before(V)
    for n, x, y in nodes:
        V.addNode(n, x, y)
    for n, a, b, ln, u, k, mp in links:
        V.addLink(n, a, b, length=ln, free_flow_speed=u, jam_density=k, merge_priority=mp)
    for a, b, t0, t1, fl, w in dem:
        if isinstance(w, (int, float)):
            V.adddemand(a, b, t0, t1, flow=fl, volume=w)
        else:
            V.adddemand(a, b, t0, t1, flow=fl)
    c["vehicles-compared"] += len(V.VEHICLES)
    a, b = veh(W), veh(V)
    if a != b:
        k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
        bad("vehicles", f"{len(a)} vehicles from the table, {len(b)} from the calls its rows stand for; first difference at {k}: {a[k:k+1]} and {b[k:k+1]}")
    if v:
        return dict(viol=v, count=dict(c))
    if not cpp and r.random() < 0.3:
        with tempfile.TemporaryDirectory(prefix="vmon32-") as d:
            W.save_scenario(d + "/s.pkl")
            U = env.make_world(False, **world2)
            U.load_scenario(d + "/s.pkl")
        c["saved-again"] += 1
        if [n.name for n in U.NODES] != [n.name for n in W.NODES] or [l.name for l in U.LINKS] != [l.name for l in W.LINKS] or [x[1:] for x in veh(U)] != [x[1:] for x in a]:
            bad("saved-again", f"a world read from CSV tables, saved as scenario and loaded: {len(U.NODES)}/{len(U.LINKS)}/{len(U.VEHICLES)} nodes, links, vehicles, before {len(W.NODES)}/{len(W.LINKS)}/{len(a)}")
    W.exec_simulation()
    V.exec_simulation()
    A, B = digest.capture(W), digest.capture(V)
    c["runs-compared"] += 1
    for x in digest.compare(A, B):
        bad("run", f"run of the world read from CSV tables and of the one built by calls: {x}")
    moved = any(l.cum_arrival[-1] > 0 for l in W.LINKS)
    res = dict(viol=v, count=dict(c))
    if moved:
        res["sig"] = digest.hexdigest(A)
    if job["seed"] % 59 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", style=style, nodes=ntext[:300], links=ltext[:300], demand=dtext[:400], vehicles=len(W.VEHICLES))
    return res


def shipped(job):
    """the tables in dat/, against an independent reading of them"""
    c = Counter()
    v = []

    def bad(rule, msg):
        if len(v) < 5:
            v.append((rule, msg))
    d = os.path.join(env.REPO, "dat")
    w = job["which"]
    c["shipped"] += 1

    def rows(name):
        with open(os.path.join(d, name), encoding="utf-8") as f:
            out = [[x.strip() for x in line.rstrip("\r\n").split(",")] for line in f if line.strip()]
        if any('"' in x for row in out for x in row):
            raise RuntimeError(f"{name}: quoted cells")
        return out
    n = [(x[0], float(x[1]), float(x[2])) for x in rows(w + "_nodes.csv") if x[1] != "x"]
    l = [(x[0], x[1], x[2], *map(float, x[3:7])) for x in rows(w + "_links.csv") if x[3] != "length"]
    W = env.make_world(job["cpp"], deltan=5, tmax=4800)
    pn, pl = os.path.join(d, w + "_nodes.csv"), os.path.join(d, w + "_links.csv")
    pd = os.path.join(d, w + "_demand.csv")
    W.load_scenario_from_csv(pn, pl, pd, tmax=3600)
    if W.TMAX != 3600:
        bad("tmax", f"tmax=3600 given, the world has {W.TMAX}")
    dem = [x for x in rows(w + "_demand.csv") if x[2] != "start_t"]
    V = env.make_world(job["cpp"], deltan=5, tmax=3600)
    for x in n:
        V.addNode(*x)
    for x in l:
        V.addLink(x[0], x[1], x[2], length=x[3], free_flow_speed=x[4], jam_density=x[5], merge_priority=x[6])
    for x in dem:
        if len(x) > 5 and x[5]:
            V.adddemand(x[0], x[1], float(x[2]), float(x[3]), volume=float(x[5]))
        else:
            V.adddemand(x[0], x[1], float(x[2]), float(x[3]), float(x[4]))
    c["vehicles-compared"] += len(V.VEHICLES)
    if veh(W) != veh(V):
        bad("vehicles", f"{w}: {len(W.VEHICLES)} vehicles, the table describes {len(V.VEHICLES)}")
    names = [x[0] for x in l]
    if len(set(names)) == len(names):
        check_objects(W, n, l, c, bad)
    elif len(W.NODES) != len(n) or len(W.LINKS) != len(l):
        bad("links", f"{w}: {len(W.NODES)} nodes and {len(W.LINKS)} links of {len(n)} and {len(l)} rows")
    return dict(viol=v, count=dict(c))
