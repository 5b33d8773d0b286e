"""P31 road network import: post-processing and world creation are judged by relations between what goes in and what comes out."""
import contextlib, hashlib, io, itertools, math, random, warnings
from collections import Counter, defaultdict
from vmon import env

TECHNIQUE = "monitor around the importers: each single post-processing pass is judged by an independent relation between its input and output networks, repeated passes against single ones, and the created World against the recorded road data (osmnx's download replaced by a synthetic road graph)"
LEVEL_NOTE = "Exploration of sampled networks and thresholds; every node, link and reachable pair of each network is judged. The download itself needs the internet and is outside the check."
ASSUME = ["attribute values of OpenStreetMap are numbers, lists of numbers, missing or unparsable strings", "osmnx and neatnet do what they document: their output is the input of the judged code"]
RULE = ("Random road networks by seed (clusters of close nodes, chains, grids, one-way and two-way roads, loops, coinciding nodes, parallel roads, repeated names), thresholds from nothing to everything, 1-8 passes, with and without enforced two-way roads; "
        "road graphs with every kind of attribute value for the import functions. Non-trivial: nodes merged or links created; distinct by the hash of the output.")
REQUIRED = ["passes", "merged-nodes", "dropped-parallel", "dropped-loops", "input-loops", "kept-links", "moved-ends", "reverse-added", "reachable-pairs", "isolated-removed", "repeated-passes", "no-short-link-left", "worlds", "world-links", "repeated-names",
            "imported-links", "imported-default-lanes", "imported-default-speed", "imported-parallel", "osm2-worlds", "osm2-two-way", "osm2-one-way", "osm2-list-values", "osm2-missing-values", "osm2-bad-values", "osm2-overridden", "osm2-node-capacity", "osm2-simplified", "osm2-by-type"]
BUDGET = dict(quick=30, thorough=500)


def prepare():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import uxsim.OSMImporter, neatnet, osmnx, geopandas  # noqa: F401


def jobs(tier, seed):
    n = 1500 if tier == "quick" else 9000
    base = seed * 1_000_003 + 31 * 20_011
    kinds = ["post", "post", "post", "import", "osm2", "post", "osm2"]
    return [dict(seed=(base + i) % (1 << 31), cpp=False, so=None, opts={}, kind=kinds[i % 7], timeout=120) for i in range(n)]


@contextlib.contextmanager
def silent():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


class C:
    def __init__(s, r):
        s.r, s.v, s.c, s.h, s.sample = r, [], defaultdict(int), hashlib.blake2b(digest_size=8), None

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg))


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def gen_net(r):
    """[id,x,y] nodes and [name,from,to,lanes,speed] links"""
    kind = r.choice(["cluster", "grid", "chain", "random", "cluster"])
    n = r.choice([2, 3, 5, 8, 12, 20, 30])
    pos = []
    if kind == "cluster":
        cs = [(139 + r.random() * .1, 35 + r.random() * .1) for _ in range(max(1, n // 4))]
        for _ in range(n):
            c = r.choice(cs)
            q = 10 ** r.uniform(-5, -2)
            pos.append((c[0] + r.gauss(0, 1) * q, c[1] + r.gauss(0, 1) * q))
    elif kind == "grid":
        w = max(1, int(n ** .5))
        pos = [(139 + .01 * (i % w), 35 + .01 * (i // w)) for i in range(n)]
    elif kind == "chain":
        x = 139.
        for i in range(n):
            pos.append((x, 35.))
            x += 10 ** r.uniform(-4, -1.7)
    else:
        pos = [(139 + r.random() * .05, 35 + r.random() * .05) for _ in range(n)]
    if r.random() < .2:
        for i in range(n):
            if r.random() < .2:
                pos[i] = pos[r.randrange(n)]
    ids = r.sample(range(1000, 9999), n) if r.random() < .7 else [f"n{i}" for i in range(n)]
    nodes = [[ids[i], *pos[i]] for i in range(n)]
    arcs = []
    p_loop = r.choice([0, 0, 0, .05, .15])
    if kind == "chain":
        for i in range(n - 1):
            arcs.append((i, i + 1))
            if r.random() < .5:
                arcs.append((i + 1, i))
    elif kind == "grid":
        w = max(1, int(n ** .5))
        for i in range(n):
            for j in ([i + 1] if i % w < w - 1 else []) + [i + w]:
                if j < n:
                    q = r.random()
                    if q < .7:
                        arcs.append((i, j))
                    if q > .3:
                        arcs.append((j, i))
    else:
        for i in range(n):
            near = sorted(range(n), key=lambda j: dist(pos[i], pos[j]))[1:1 + r.choice([1, 2, 3])] if n > 1 else []
            for j in near + ([r.randrange(n)] if r.random() < .4 else []):
                arcs.append((i, j))
                if r.random() < .5:
                    arcs.append((j, i))
    out = []
    for a, b in arcs:
        if a == b and r.random() > p_loop:
            continue
        out.append((a, b))
        if r.random() < .08:
            out.append((a, b))
    for i in range(n):
        if r.random() < p_loop:
            out.append((i, i))
    r.shuffle(out)
    uniq = r.random() < .6
    links = []
    for k, (a, b) in enumerate(out):
        name = f"L{k}" if uniq else r.choice(["", "road-1", "road-2", f"street-{k}"])
        links.append([name, ids[a], ids[b], r.choice([1, 2, 3, 4]), r.choice([30, 50, 60, 100]) / 3.6])
    used = {l[1] for l in links} | {l[2] for l in links}
    if r.random() < .8:
        nodes = [x for x in nodes if x[0] in used]
    return nodes, links, uniq


def reach(ids, arcs):
    adj = defaultdict(set)
    for a, b in arcs:
        adj[a].add(b)
    out = {}
    for s in ids:
        seen, st = {s}, [s]
        while st:
            for y in adj[st.pop()]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        out[s] = seen
    return out


def sane(c, tag, nodes, links, bidir):
    """what holds for every output, whatever the number of passes"""
    pos = {x[0]: (x[1], x[2]) for x in nodes}
    if len(pos) != len(nodes):
        c.bad("output-shape", f"{tag}: a node is listed twice")
    used, pairs = set(), Counter()
    for l in links:
        if len(l) < 6:
            c.bad("output-shape", f"{tag}: link {l} has no length")
            return None
        for e in (l[1], l[2]):
            if e not in pos:
                c.bad("dangling-end", f"{tag}: link {l[0]!r} ({l[1]}->{l[2]}) ends at node {e}, which is not in the output")
                return None
        used |= {l[1], l[2]}
        pairs[l[1], l[2]] += 1
        if l[1] == l[2]:
            c.bad("self-loop", f"{tag}: link {l[0]!r} is a loop at {l[1]}")
        d = dist(pos[l[1]], pos[l[2]])
        if abs(l[5] - d) > 1e-9 * (1 + d):
            c.bad("length", f"{tag}: link {l[0]!r} has length {l[5]}, its ends are {d} apart")
    for k, n in pairs.items():
        if n > 1:
            c.bad("one-per-pair", f"{tag}: {n} links from {k[0]} to {k[1]}")
        if bidir and (k[1], k[0]) not in pairs:
            c.bad("bidirectional", f"{tag}: no link from {k[1]} to {k[0]} although the reverse exists")
    for x in nodes:
        if x[0] not in used:
            c.bad("isolated-node", f"{tag}: node {x[0]} has no link")
    return pos


def judge_reach(c, tag, nodes, links, on, ol):
    ids = {x[0] for x in on}
    a = reach(ids, [(l[1], l[2]) for l in links])
    b = reach(ids, [(l[1], l[2]) for l in ol])
    for s in ids:
        for t in ids:
            if t in a[s]:
                c.c["reachable-pairs"] += 1
                if t not in b[s]:
                    c.bad("reachability", f"{tag}: node {t} was reachable from node {s} and no longer is")
                    return


def judge_pass(c, tag, nodes, links, on, ol, th, bidir, uniq):
    pos = sane(c, tag, on, ol, bidir)
    if pos is None:
        return
    ipos = {x[0]: (x[1], x[2]) for x in nodes}
    for x in on:
        if x[0] not in ipos or ipos[x[0]] != (x[1], x[2]):
            c.bad("node-kept", f"{tag}: output node {x} is not an input node")
    short = defaultdict(set)
    nshort = 0
    for l in links:
        if l[1] != l[2]:
            d = dist(ipos[l[1]], ipos[l[2]])
            if abs(d - th) < 1e-12:
                return               # too close to call
            if d <= th:
                nshort += 1
                short[l[1]].add(l[2])
                short[l[2]].add(l[1])
        else:
            c.c["input-loops"] += 1
    out = {x[0] for x in on}
    gone = [x[0] for x in nodes if x[0] not in out]
    if nshort and not gone:
        c.bad("merges-nothing", f"{tag}: {nshort} links are not longer than the threshold {th} and no node is merged")
    linked = {l[1] for l in links} | {l[2] for l in links}
    # candidates of the node each input node has become: itself, or one at the other end of a short link
    cand = {}
    for x in nodes:
        n = x[0]
        cand[n] = [n] if n in out else [m for m in short[n]] + [n]
    got = {(l[1], l[2]): l for l in ol}
    if uniq:
        # links are identified by their names, so that their ends tell what nodes were merged into
        src = {l[0]: l for l in links}
        for l in ol:
            o = src.get(l[0])
            if o is None and bidir and l[0].endswith("-reverse"):
                continue
            if o is None:
                c.bad("link-kept", f"{tag}: link {l[0]!r} does not exist in the input")
                continue
            for a, b in ((o[1], l[1]), (o[2], l[2])):
                if b not in cand[a]:
                    c.bad("merge-rule", f"{tag}: link {l[0]!r} ended at {a} and ends at {b} now, which no link of at most {th} joins" if a != b else f"{tag}: {a} vs {b}")
                    return
                cand[a] = [b]
                c.c["moved-ends"] += a != b
    # survivors keep their identity, others must have one consistent target
    open_ = [n for n in cand if len(cand[n]) > 1]
    tot = 1
    for n in open_:
        tot *= len(cand[n])
    if tot > 3000:
        c.c["ambiguous-merges"] += 1
        return

    def fits(m):
        want = defaultdict(list)
        for l in links:
            a, b = m[l[1]], m[l[2]]
            if a != b:
                if a not in out or b not in out:
                    return f"link {l[0]!r} ({l[1]}->{l[2]}) has lost an end"
                want[a, b].append(l)
        for k, ls in want.items():
            g = got.get(k)
            if g is None:
                return f"link {ls[0][0]!r} ({ls[0][1]}->{ls[0][2]}), now between {k[0]} and {k[1]}, is missing"
            if not any((g[0], g[3], g[4]) == (l[0], l[3], l[4]) for l in ls):
                return f"link {g} has name, lanes and speed of none of {ls}"
        for k, g in got.items():
            if k in want:
                continue
            rev = got.get((k[1], k[0]))
            if not (bidir and rev is not None and (k[1], k[0]) in want):
                return f"link {g} joins two nodes that no link joined"
            if g[0] != str(rev[0]) + "-reverse" or g[3:5] != rev[3:5]:
                return f"reverse link {g} does not match {rev}"
        m.want = want
        return None

    class M(dict):
        pass
    why = None
    for combo in itertools.product(*(cand[n] for n in open_)):
        m = M({n: cand[n][0] for n in cand})
        m.update(zip(open_, combo))
        e = fits(m)
        if e is None:
            c.c["passes"] += 1
            c.c["merged-nodes"] += sum(a != b for a, b in m.items())
            c.c["isolated-removed"] += sum(1 for n in gone if m[n] == n or n not in linked)
            c.c["kept-links"] += len(m.want)
            c.c["dropped-parallel"] += sum(len(x) - 1 for x in m.want.values())
            c.c["dropped-loops"] += sum(m[l[1]] == m[l[2]] for l in links)
            c.c["reverse-added"] += len(got) - len(m.want)
            judge_reach(c, tag, nodes, links, on, ol)
            return
        why = why or e
    c.bad("link-kept" if len(open_) == 0 else "merge-rule", f"{tag}, threshold {th}: " + (f"{why}" if len(open_) == 0 else f"no merging of nodes along short links explains the output; e.g. {why}"))


def run_post(c):
    from uxsim.OSMImporter import OSMImporter as O
    r = c.r
    nodes, links, uniq = gen_net(r)
    c.c["repeated-names"] += not uniq
    ls = sorted(dist(dict((x[0], x[1:]) for x in nodes)[l[1]], dict((x[0], x[1:]) for x in nodes)[l[2]]) for l in links)
    th = r.choice([0, 1e-4, 1e-3, 5e-3, .02, 1.]) if not ls or r.random() < .5 else (ls[r.randrange(len(ls))] * r.choice([.999, 1.001, 1.3]))
    bidir = r.random() < .4
    it = r.choice([1, 2, 3, 5, 8])
    keep = ([list(x) for x in nodes], [list(x) for x in links])
    c.sample = dict(nodes=keep[0], links=keep[1], threshold=th, passes=it, bidirectional=bidir)
    with silent():
        fn, fl = O.osm_network_postprocessing([list(x) for x in nodes], [list(x) for x in links], th, node_merge_iteration=it, enforce_bidirectional=bidir)
    cn, cl = keep
    for k in range(it):
        with silent():
            on, ol = O.osm_network_postprocessing([list(x) for x in cn], [list(x) for x in cl], th, node_merge_iteration=1, enforce_bidirectional=bidir)
        judge_pass(c, f"pass {k + 1}", cn, cl, on, ol, th, bidir, uniq and len({l[0] for l in cl}) == len(cl))
        if c.v:
            return
        cn, cl = on, ol
    key = lambda n, l: (sorted(map(repr, n)), sorted(map(repr, l)))
    if key(cn, cl) != key(fn, fl):
        c.bad("passes", f"{it} passes at once give {len(fn)} nodes and {len(fl)} links, one by one {len(cn)} and {len(cl)}, or they differ in attributes")
    c.c["repeated-passes"] += it > 1
    sane(c, "result", fn, fl, bidir)
    if not c.v:
        judge_reach(c, "result", nodes, links, fn, fl)
    if not c.v and r.random() < .4:
        with silent():
            en, el = O.osm_network_postprocessing([list(x) for x in nodes], [list(x) for x in links], th, node_merge_iteration=len(nodes) + 2, enforce_bidirectional=bidir)
        sane(c, "after enough passes", en, el, bidir)
        for l in el:
            if l[5] <= th * (1 - 1e-9):
                c.bad("short-link-left", f"link {l} is not longer than the threshold {th} after {len(nodes) + 2} passes")
        judge_reach(c, "after enough passes", nodes, links, en, el)
        c.c["no-short-link-left"] += 1
    c.h.update(repr(key(fn, fl)).encode())
    # ---- world
    if fl and not c.v:
        from uxsim import World
        W = World(name="", print_mode=0, save_mode=0, show_mode=0, tmax=600)
        jd = r.choice([.2, .15, .3])
        coef = r.choice([111000, 1, 90000.])
        with silent():
            O.osm_network_to_World(W, fn, fl, default_jam_density=jd, coef_degree_to_meter=coef)
        got = {n.name: (n.x, n.y) for n in W.NODES}
        want = {str(x[0]): (x[1], x[2]) for x in fn}
        if got != want or len(W.NODES) != len(fn):
            c.bad("world-nodes", f"nodes of the World {sorted(got)[:5]}.. ({len(W.NODES)}) differ from the network's ({len(want)})")
        gl = {(l.start_node.name, l.end_node.name): l for l in W.LINKS}
        if len(W.LINKS) != len(fl) or len({l.name for l in W.LINKS}) != len(fl):
            c.bad("world-links", f"{len(W.LINKS)} links in the World with {len({l.name for l in W.LINKS})} names for {len(fl)} links")
        cnt = Counter(str(l[0]) for l in fl)
        for l in fl:
            g = gl.get((str(l[1]), str(l[2])))
            if g is None:
                c.bad("world-links", f"link {l} is missing in the World")
                continue
            c.c["world-links"] += 1
            if (cnt[str(l[0])] == 1 and g.name != str(l[0])) or not g.name.startswith(str(l[0])):
                c.bad("world-links", f"link {l[0]!r} is called {g.name!r} in the World")
            for a, b, w in ((g.length, l[5] * coef, "length"), (g.u, l[4], "speed"), (g.number_of_lanes, l[3], "lanes"), (g.kappa, jd * l[3], "jam density")):
                if abs(a - b) > 1e-9 * (1 + abs(b)):
                    c.bad("world-links", f"link {l[0]!r}: {w} {a} in the World, {b} in the network")
        c.c["worlds"] += 1


TYPES = ["motorway", "trunk", "primary", "secondary", "tertiary", "residential", "motorway_link", "primary_link", "unclassified", "living_street", "service"]


def road_graph(r, osm2):
    import networkx as nx
    G = nx.MultiDiGraph(crs="epsg:4326")
    n = r.choice([3, 5, 9, 16]) if osm2 else r.choice([2, 4, 8, 15])
    w = max(1, int(n ** .5))
    for i in range(n):
        G.add_node(i + 100, x=139 + .01 * (i % w) + r.random() * .004, y=35 + .01 * (i // w) + r.random() * .004)

    def attrs():
        a = dict(osmid=r.randrange(10 ** 6) if r.random() < .8 else [r.randrange(10 ** 6), r.randrange(10 ** 6)], length=100. + r.random(), reversed=False)
        q = r.random()
        a["highway"] = r.choice(TYPES) if q < .75 else r.sample(TYPES, 2)
        if q > .92:
            a["highway"] = None if osm2 else a["highway"]
        if q > .96 and not osm2:
            del a["highway"]
        for k, f in (("name", lambda: r.choice(["A", "B"]) + str(r.randrange(100))), ("lanes", lambda: str(r.choice([1, 2, 3, 4, 5]))), ("maxspeed", lambda: str(r.choice([30, 40, 50, 60, 80])))):
            q = r.random()
            a[k] = f() if q < .5 else ([f(), f()] if q < .65 else None)
            if k != "name" and q > .9:
                a[k] = r.choice(["30 mph", "signals", "2;3", ""])
            if a[k] is None and not osm2 and r.random() < .8:
                del a[k]
        a["oneway"] = r.random() < .5
        return a
    for i in range(n):
        for j in ([i + 1] if i % w < w - 1 else []) + [i + w]:
            if j < n:
                a, b = (i + 100, j + 100) if r.random() < .5 else (j + 100, i + 100)
                G.add_edge(a, b, **attrs())
                if r.random() < .3:
                    G.add_edge(b, a, **attrs())
                if r.random() < .12:
                    G.add_edge(a, b, **attrs())
    return G


@contextlib.contextmanager
def download(G):
    import osmnx as ox
    old = ox.graph.graph_from_bbox, ox.graph_from_bbox
    calls = []

    def fake(*a, **k):
        calls.append((a, k))
        return G.copy()
    ox.graph.graph_from_bbox = ox.graph_from_bbox = fake
    try:
        yield calls
    finally:
        ox.graph.graph_from_bbox, ox.graph_from_bbox = old


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def run_import(c):
    from uxsim.OSMImporter import OSMImporter as O
    r = c.r
    G = road_graph(r, False)
    names = ["trunk", "primary", "secondary", "residential", "tertiary", "others"]
    kw, lan, spd = {}, dict(mortorway=3, trunk=3, primary=2, secondary=2, residential=1, tertiary=1, others=1), dict(mortorway=100, trunk=60, primary=50, secondary=50, residential=30, tertiary=30, others=30)
    for k in list(lan):
        if r.random() < .5:
            kw[f"default_number_of_lanes_{k}"] = lan[k] = r.randint(1, 7)
        if r.random() < .5:
            kw[f"default_maxspeed_{k}"] = spd[k] = r.randint(10, 130)
    with download(G), silent():
        on, ol = O.import_osm_data(bbox=[0, 0, 1, 1], **kw)
    c.sample = dict(edges=[(a, b, {k: v for k, v in d.items()}) for a, b, d in G.edges(data=True)], options=kw)
    keys = ["mortorway"] + names[:-1]

    def by_type(t, tab):
        res = set()
        for x in (t if isinstance(t, list) else [t]):
            hit = [k for k in keys if ("motorway" if k == "mortorway" else k) in x]
            res |= {tab[k] for k in hit} if hit else {tab["others"]}
        if isinstance(t, list):
            res.add(tab["others"])
        return res
    want = []
    par = Counter()
    for a, b, d in G.edges(data=True):
        if d.get("highway") is None:
            continue
        par[a, b] += 1
        L = d.get("lanes")
        lanes = {int(L)} if isinstance(L, str) and L.isdigit() else by_type(d["highway"], lan)
        c.c["imported-default-lanes"] += not (isinstance(L, str) and L.isdigit())
        s = num(d.get("maxspeed"))
        speed = {s / 3.6} if s is not None else {x / 3.6 for x in by_type(d["highway"], spd)}
        c.c["imported-default-speed"] += s is None
        nm, oid = d.get("name"), d["osmid"]
        nm = nm[0] if isinstance(nm, list) else nm
        oid = oid[0] if isinstance(oid, list) else oid
        want.append((a, b, lanes, speed, f"{nm}-{oid}" if nm is not None else ""))
    c.c["imported-parallel"] += sum(x > 1 for x in par.values())
    if Counter((l[1], l[2]) for l in ol) != par:
        c.bad("imported-links", f"imported {Counter((l[1], l[2]) for l in ol)} for roads {par}")
        return
    left = [list(l) for l in ol]
    for a, b, lanes, speed, nm in want:
        hit = next((l for l in left if l[1] == a and l[2] == b and l[3] in lanes and any(abs(l[4] - x) < 1e-9 for x in speed) and l[0] == nm), None)
        c.c["imported-links"] += 1
        if hit is None:
            c.bad("imported-links", f"road {a}->{b} named {nm!r} with lanes in {lanes} and speed in {speed} is missing; imported {[l for l in ol if l[1] == a and l[2] == b]}")
            return
        left.remove(hit)
    nd = {x[0]: (x[1], x[2]) for x in on}
    if nd != {n: (G.nodes[n]["x"], G.nodes[n]["y"]) for l in want for n in l[:2]} or len(nd) != len(on):
        c.bad("imported-nodes", f"imported nodes {sorted(nd)} do not match the roads' ends")
    c.h.update(repr(ol).encode())


MS = {"motorway": 100, "trunk": 80, "primary": 60, "secondary": 50, "tertiary": 40, "residential": 30, "living_street": 20, "service": 20, "others": 40}
LN = {"motorway": 3, "trunk": 3, "primary": 2, "secondary": 2, "tertiary": 2, "residential": 1, "living_street": 1, "service": 1, "others": 1}


def run_osm2(c):
    import osmnx as ox, neatnet
    from uxsim import World
    from uxsim.OSMImporter2 import OSMImporter2 as O
    r = c.r
    G = road_graph(r, True)
    simp, over, cap = r.random() < .3, r.random() < .2, r.random() < .6
    ms, ln = {k: v / 3.6 for k, v in MS.items()}, dict(LN)
    kw = {}
    if r.random() < .4:
        kw["maxspeed_by_road_type"] = {k: r.uniform(5, 40) for k in r.sample(sorted(MS), 3)}
        ms.update(kw["maxspeed_by_road_type"])
        c.c["osm2-by-type"] += 1
    if r.random() < .4:
        kw["lanes_by_road_type"] = {k: r.randint(1, 6) for k in r.sample(sorted(LN), 3)}
        ln.update(kw["lanes_by_road_type"])
    if simp:
        for a, b, k, d in G.edges(keys=True, data=True):
            d["highway"] = d["highway"] or "primary"
    with silent():
        ref = ox.graph_to_gdfs(ox.project_graph(G.copy()))[1]
        if simp:
            try:
                ref = neatnet.neatify(ref)
            except Exception as e:
                c.c["neatify-refuses"] += 1
                return
    for col in ("name", "lanes", "maxspeed", "highway"):
        if col not in ref.columns:
            c.c["no-column"] += 1
            return
    W = World(name="", print_mode=0, save_mode=0, show_mode=0, tmax=600)
    W.addNode("mine", 0, 0)
    c.sample = dict(edges=[(a, b, {k: v for k, v in d.items()}) for a, b, d in G.edges(data=True)], options=dict(kw, simplification=simp, override=over))
    with download(G), silent():
        O.osm_network_to_World(W, bbox=[0, 0, 1, 1], simplification=simp, override_osm_attributes=over, set_node_capacity=cap, **kw)
    c.c["osm2-simplified"] += simp
    c.c["osm2-overridden"] += over
    rk = lambda p: (round(float(p[0]), 6), round(float(p[1]), 6))
    rows = []
    touch = defaultdict(list)
    for _, row in ref.iterrows():
        g = row.geometry
        a, b = rk(g.coords[0]), rk(g.coords[-1])
        rows.append((row, a, b, g.length))
        if row["highway"] is not None:
            touch[a].append(row["highway"])
            touch[b].append(row["highway"])
    pts = {p for _, a, b, _ in rows for p in (a, b)}
    nn = {rk((n.x, n.y)): n for n in W.NODES if n.name != "mine"}
    if set(nn) != pts or len(W.NODES) != len(pts) + 1:
        c.bad("osm2-nodes", f"{len(W.NODES) - 1} nodes were created for {len(pts)} road ends")
        return

    def by_type(t, tab):
        res = set()
        for x in (t if isinstance(t, list) else [t]):
            res.add(next((tab[k] for k in tab if k in x), tab["others"]) if isinstance(x, str) else tab["others"])
        return res
    want = []
    for row, a, b, length in rows:
        hw, one = row["highway"], bool(row["oneway"])
        hws = [hw] if hw is not None else touch[a] + touch[b] + ["None"]
        v, listed = row["maxspeed"], lambda x: isinstance(x, list)
        m = None
        if not over and isinstance(v, str):
            m = {num(v) / 3.6} if num(v) is not None else {ms["others"]}
            c.c["osm2-bad-values"] += num(v) is None
        elif not over and listed(v):
            q = [num(x) for x in v]
            m = {sum(q) / len(q) / 3.6} if None not in q else {ms["others"]}
            c.c["osm2-list-values"] += 1
        else:
            m = set().union(*(by_type(t, ms) for t in hws))
            c.c["osm2-missing-values"] += 1
        v = row["lanes"]
        if not over and isinstance(v, str):
            n = {int(v)} if v.isdigit() else {ln["others"]}
        elif not over and listed(v):
            q = [int(x) if str(x).isdigit() else None for x in v]
            n = {max(q)} if None not in q else {ln["others"]}
        else:
            n = set().union(*(by_type(t, ln) for t in hws))
            if not one:       # an unknown type is not doubled before it is shared between the directions
                n = {2 * x for x in n} | ({ln["others"]} if n & {ln["others"]} else set())
        if not one:
            n = {max(1, x // 2) for x in n}
        nm = row["name"]
        nm = nm[0] if listed(nm) else nm
        nm = nm if isinstance(nm, str) else None
        want.append((a, b, length, m, n, nm, ""))
        c.c["osm2-one-way" if one else "osm2-two-way"] += 1
        if not one:
            want.append((b, a, length, m, n, nm, "-reverse"))
    if len(W.LINKS) != len(want) or len({l.name for l in W.LINKS}) != len(want):
        c.bad("osm2-links", f"{len(W.LINKS)} links with {len({l.name for l in W.LINKS})} names were created for {len(want)} road directions")
        return
    left = defaultdict(list)
    for l in W.LINKS:
        left[rk((l.start_node.x, l.start_node.y)), rk((l.end_node.x, l.end_node.y))].append(l)
    def same(l, w):
        _, _, length, m, n, nm, suf = w
        return abs(l.length - length) < 1e-6 * (1 + length) and any(abs(l.u - x) < 1e-9 for x in m) and l.number_of_lanes in n and (nm is None or l.name.startswith(nm + suf))

    todo = defaultdict(list)
    for w in want:
        todo[w[0], w[1]].append(w)
    for k, ws in todo.items():      # bipartite matching of the directions of parallel roads to links
        own = {}

        def place(i, seen):
            for j, l in enumerate(left[k]):
                if j not in seen and same(l, ws[i]):
                    seen.add(j)
                    if j not in own or place(own[j], seen):
                        own[j] = i
                        return True
            return False
        for i, w in enumerate(ws):
            c.c["osm2-links"] += 1
            if not place(i, set()):
                c.bad("osm2-links", f"no link {w[0]}->{w[1]} of length {w[2]}, speed in {w[3]}, lanes in {w[4]}, name {w[5]!r}{w[6]}; there are {[(l.name, l.length, l.u, l.number_of_lanes) for l in left[k]]}")
                return
    for p, nd in nn.items():
        ls = list(nd.inlinks.values()) + list(nd.outlinks.values())
        mx = max(l.number_of_lanes for l in ls)
        if cap:
            c.c["osm2-node-capacity"] += 1
            if abs((nd.flow_capacity or 0) - mx * 1.6) > 1e-9 or nd.number_of_lanes != mx * 2:
                c.bad("osm2-node-capacity", f"node {nd.name}: capacity {nd.flow_capacity}, lanes {nd.number_of_lanes} for links of up to {mx} lanes")
        elif nd.flow_capacity is not None:
            c.bad("osm2-node-capacity", f"node {nd.name} has capacity {nd.flow_capacity} although none was asked for")
    c.c["osm2-worlds"] += 1
    c.h.update(repr(sorted((l.name, l.length, l.u, l.number_of_lanes) for l in W.LINKS)).encode())


def run(job):
    c = C(random.Random(job["seed"]))
    dict(post=run_post, osm2=run_osm2).get(job["kind"], run_import)(c)
    return dict(viol=c.v, count=dict(c.c), sig=c.h.hexdigest(), sample=c.sample)
