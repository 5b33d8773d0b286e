"""P19 scenario files: save, load, compare the worlds' definitions, run both and compare everything, save again."""
import hashlib, json, math, os, random, subprocess, sys, tempfile
from collections import defaultdict
import numpy as np
from vmon import scen, env, digest

TECHNIQUE = "differential trace oracle: the loaded world's objects are compared attribute by attribute with the saved world's and with the scenario's own definition, both are executed and every vehicle, link, node and log is compared bit for bit; files saved again are compared entry by entry"
LEVEL_NOTE = "Exploration of sampled scenarios, in one process and across processes. Python engine only (the C++ engine declares scenario files unsupported)."
ASSUME = ["vehicles added one by one with addVehicle are not part of a scenario file (only adddemand* calls are recorded)",
          "tolls and user functions are saved with dill and do not refer to the world",
          "the meta data of the file is printed when loading, not copied"]
RULE = ("Scenarios by seed with all demand functions in random order, objects and names as arguments, tolls, user functions, attributes of many types, per-lane densities, explicit and default capacities, signals, lanes, automatic renaming; saved before, in the middle of and after the run. "
        "Non-trivial: at least one vehicle entered a link; distinct by the final picture.")
REQUIRED = ["saved-before", "saved-mid", "saved-after", "nodes-compared", "links-compared", "vehicles-compared", "runs-compared", "files-compared", "partial-loads", "other-process", "default-capacity", "explicit-capacity", "tolled", "signals", "attributes", "array-attribute",
            "renamed", "interleaved-demands", "random-demands", "object-arguments", "third-generation", "file-overwritten"]
BUDGET = dict(quick=40, thorough=700)


def jobs(tier, seed):
    n = 170 if tier == "quick" else 4500
    base = seed * 1_000_003 + 19 * 20_011
    out = [dict(seed=(base + i) % (1 << 31), cpp=False, so=None, timeout=200, process=i % 21 == 0) for i in range(n)]
    out.sort(key=lambda j: not j["process"])
    return out


ATTRS = [None, 0, 7, 1.5, "text", "", (1, 2), [1, [2, 3]], {"a": 1, "b": [1, 2]}, False, True]


def attr(r, c):
    if r.random() < 0.15:
        c["array-attribute"] += 1
        return np.arange(r.randint(2, 4)) * 1.5
    return r.choice(ATTRS)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and bool((a == b).all())
    if callable(a) and callable(b):
        try:
            return [a(t) for t in (0, 1, 50, 400, 5000)] == [b(t) for t in (0, 1, 50, 400, 5000)]
        except TypeError:
            return True
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, "name") and hasattr(a, "W"):
        a = a.name
    if hasattr(b, "name") and hasattr(b, "W"):
        b = b.name
    return a == b and (isinstance(a, bool) == isinstance(b, bool))


def define(job, r, c):
    """-> spec, list of definition calls"""
    spec = scen.generate(job["seed"], hard=r.random() < 0.5, vehicles=False, max_platoons=80, multi_demand=False)
    dn = spec["world"]["deltan"]
    h = spec["world"]["tmax"]
    xs, ys = [n["x"] for n in spec["nodes"]], [n["y"] for n in spec["nodes"]]
    R = max(max(xs) - min(xs), max(ys) - min(ys), 1)
    names = [n["name"] for n in spec["nodes"]]
    D = spec["demands"]
    outs, ins = {l["start"] for l in spec["links"]}, {l["end"] for l in spec["links"]}
    for _ in range(r.randint(0, 4)):
        k = r.choice(["area2area", "area2area2", "nodes2nodes", "nodes2nodes2", "p2p"])
        c["random-demands"] += k.endswith("2")
        d = dict(kind=k, t0=r.choice([0, h * 0.1]), t1=h * 0.4)
        if r.random() < 0.6:
            d["volume"] = dn * r.randint(3, 12)
        else:
            d["flow"] = round(dn * r.uniform(3, 12) / (h * 0.4), 5)
        if k == "p2p":
            d["args"] = [r.choice(xs), r.choice(ys), r.choice(xs) + 0.01, r.choice(ys)]
        elif k.startswith("area"):
            d["args"] = [r.choice(xs), r.choice(ys), R * r.choice([0.1, 0.6]), r.choice(xs), r.choice(ys), R * r.choice([0.6, 0.9])]
            near = lambda x, y, q, side: sum((n["x"] - x) ** 2 + (n["y"] - y) ** 2 < q * q * 0.99 and n["name"] in side for n in spec["nodes"])
            if near(*d["args"][:3], outs) < 2 or near(*d["args"][3:], ins) < 2:
                continue
        else:
            d["origs"] = r.sample([x for x in names if x in outs], min(2, len(outs)))
            d["dests"] = [x for x in names if x not in d["origs"] and x in ins][:3]
            if len(d["dests"]) < 2 or not d["origs"]:
                continue
        D.append(d)
    r.shuffle(D)
    kinds = [d["kind"] for d in D]
    c["interleaved-demands"] += kinds != sorted(kinds, key=kinds.index)
    for d in D:
        if r.random() < 0.5:
            d["attribute"] = attr(r, c)
    for n in spec["nodes"]:
        if r.random() < 0.3:
            n["attribute"] = attr(r, c)
            c["attributes"] += 1
        if r.random() < 0.1:
            n["user_attribute"] = attr(r, c)
        c["signals"] += len(n.get("signal", [])) > 1
        if len(n.get("signal", [])) > 1 and r.random() < 0.5:
            n[r.choice(["signal_offset", "signal_offset_old"])] = r.choice([3, 10.5, 20])
        elif n.get("flow_capacity") is None and r.random() < 0.1:
            n["flow_capacity"] = r.choice([0.5, 1.3, 2])
            if r.random() < 0.5:
                n["number_of_lanes"] = r.choice([1, 2, 3])
    for l in spec["links"]:
        if r.random() < 0.3:
            l["attribute"] = attr(r, c)
            c["attributes"] += 1
        if r.random() < 0.1:
            l["user_attribute"] = attr(r, c)
        if r.random() < 0.2:
            l["capacity_in"] = r.choice([0.3, 0.8, 2])
        if r.random() < 0.2:
            l["capacity_out"] = r.choice([0.3, 0.8, 2])
        if r.random() < 0.2:
            l.pop("jam_density", None)
            l["jam_density_per_lane"] = r.choice([0.15, 0.2, 0.25])
        if r.random() < 0.1:
            l["eular_dx"] = l["length"] / r.choice([2, 5])
        c["tolled"] += bool(l.get("toll"))
        c["explicit-capacity"] += "capacity_in" in l
        c["default-capacity"] += "capacity_in" not in l
    return spec


def touch(o):
    o._touched = getattr(o, "_touched", 0) + 1


def build(spec, r, c, renames):
    """The definition through the API, with objects or names as arguments"""
    W = env.make_world(name="", print_mode=0, save_mode=0, show_mode=0, **spec["world"])
    for n in spec["nodes"]:
        kw = {k: v for k, v in n.items() if k not in ("name", "x", "y")}
        W.addNode(n["name"], n["x"], n["y"], **kw)
    for l in spec["links"]:
        kw = {k: v for k, v in l.items() if k not in ("name", "start", "end", "length", "toll")}
        if l.get("toll"):
            kw["congestion_pricing"] = scen.toll_fn(l["toll"])
        a, b = l["start"], l["end"]
        if r.random() < 0.3:
            a, b = W.get_node(a), W.get_node(b)
        W.addLink(l["name"], a, b, l["length"], **kw)
    for x in renames:
        W.addLink(x["name"], x["start"], x["end"], x["length"], auto_rename=True)
        c["renamed"] += 1
    for d in spec["demands"]:
        kw = {k: d[k] for k in ("flow", "volume", "attribute") if k in d}
        ob = (lambda n: W.get_node(n)) if r.random() < 0.3 else (lambda n: n)
        c["object-arguments"] += ob("x") != "x" if False else 0
        if d["kind"] == "od":
            if r.random() < 0.3:
                c["object-arguments"] += 1
                W.adddemand(W.get_node(d["orig"]), W.get_node(d["dest"]), d["t0"], t_end=d["t1"], **kw)
            else:
                W.adddemand(d["orig"], d["dest"], d["t0"], d["t1"], **kw)
        elif d["kind"] == "p2p":
            W.adddemand_point2point(*d["args"], d["t0"], d["t1"], **kw)
        elif d["kind"].startswith("area"):
            getattr(W, "adddemand_" + d["kind"])(*d["args"], d["t0"], d["t1"], **kw)
        else:
            getattr(W, "adddemand_" + d["kind"])([W.get_node(n) for n in d["origs"]], [W.get_node(n) for n in d["dests"]], d["t0"], d["t1"], **kw)
    return W


NODE_ATTRS = ["name", "id", "x", "y", "signal", "signal_offset", "flow_capacity", "number_of_lanes", "attribute", "user_attribute", "signal_phase", "signal_t", "flow_capacity_remain"]
LINK_ATTRS = ["name", "id", "length", "u", "free_flow_speed", "kappa", "jam_density", "jam_density_per_lane", "tau", "w", "capacity", "number_of_lanes", "merge_priority", "signal_group", "capacity_out", "capacity_in", "congestion_pricing", "edie_dx",
              "attribute", "user_attribute", "capacity_in_remain", "capacity_out_remain", "k_star", "q_star", "delta"]


def state(W, ns=NODE_ATTRS, ls=LINK_ATTRS):
    return ([{a: getattr(n, a, None) for a in ns} for n in W.NODES], [dict({a: getattr(l, a, None) for a in ls}, start=l.start_node.name, end=l.end_node.name) for l in W.LINKS],
            [(k, v.id, v.orig.name, v.dest.name, v.departure_time, v.departure_time_in_second, v.attribute, v.mode, v.trip_abort) for k, v in W.VEHICLES.items()])


class C:
    def __init__(s):
        s.v, s.c = [], defaultdict(int)
        s.adjusted = False

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg[:600]))

    def compare(s, what, a, b, transient=True, network=True, demand=True):
        skip = ("flow_capacity", "number_of_lanes", "flow_capacity_remain") if s.adjusted else () if transient else ("flow_capacity_remain", "capacity_in_remain", "capacity_out_remain", "signal_phase", "signal_t")
        for i, kind in enumerate(("nodes", "links")):
            if not network:
                continue
            s.c[kind + "-compared"] += len(a[i])
            no = skip if kind == "nodes" else ()
            if [x["name"] for x in a[i]] != [x["name"] for x in b[i]]:
                s.bad(kind, f"{what}: {kind} are {[x['name'] for x in b[i]][:8]}, saved were {[x['name'] for x in a[i]][:8]}")
                continue
            for x, y in zip(a[i], b[i]):
                for k in x:
                    if k not in no and not same(x[k], y[k]):
                        s.bad(kind, f"{what}: {kind[:-1]} {x['name']}: {k} is {y[k]!r}, saved was {x[k]!r}")
                        break
        if demand:
            s.c["vehicles-compared"] += len(a[2])
            if len(a[2]) != len(b[2]):
                s.bad("vehicles", f"{what}: {len(b[2])} vehicles, saved were {len(a[2])}")
            for x, y in zip(a[2], b[2]):
                if not same(list(x), list(y)):
                    s.bad("vehicles", f"{what}: vehicle {y[:6]} attribute {y[6]!r}, saved was {x[:6]} attribute {x[6]!r}")
                    break


def run(job):
    r = random.Random(job["seed"] ^ 0xC19)
    s = C()
    c = s.c
    with env.quiet(), tempfile.TemporaryDirectory() as tmp:
        spec = define(job, r, c)
        renames = []
        if spec["world"]["hard_deterministic_mode"] and r.random() < 0.3 and not any(d["kind"].endswith("2") for d in spec["demands"]):
            renames = [dict(r.choice(spec["links"])) for _ in range(r.randint(1, 2))]
        W = build(spec, r, c, renames)
        meta = r.choice([{}, {"DATA SOURCE AND LICENCE": "nowhere", "n": 3}, "plain text"])
        W.meta_data = meta
        s0 = state(W)
        f1 = os.path.join(tmp, "a.scn")
        if job["seed"] % 2:     # an older file is there
            c["file-overwritten"] += 1
            with open(f1, "wb") as h:
                h.write(b"older" * 99999)
        when = r.choice(["before", "mid", "after"])
        c["saved-" + when] += 1
        s.adjusted = when != "before" and bool(spec["world"].get("adjust_node_capacity"))   # node capacities the run has determined are saved as such
        if when == "before":
            W.save_scenario(f1)
            s.compare("saving", s0, state(W))
            W.exec_simulation()
        elif when == "mid":
            W.exec_simulation(until_t=r.uniform(0, spec["world"]["tmax"] * 0.8))
            x = state(W)
            W.save_scenario(f1)
            s.compare("saving", x, state(W))
            W.exec_simulation()
        else:
            W.exec_simulation()
            W.save_scenario(f1)
        final = digest.capture(W)

        W2 = env.make_world(name="", print_mode=0, save_mode=0, show_mode=0, **spec["world"])
        W2.load_scenario(f1)
        s2 = state(W2)
        s.compare(f"loading what was saved {when} the run", s0, s2)
        f2 = os.path.join(tmp, "b.scn")
        W2.save_scenario(f2)
        import dill
        a, b = dill.load(open(f1, "rb")), dill.load(open(f2, "rb"))
        c["files-compared"] += 1
        if a.get("meta_data") != meta:
            s.bad("file", f"the file's meta data are {a.get('meta_data')!r}, the world's {meta!r}")
        for k in set(a) | set(b):
            if k != "meta_data" and not same(a.get(k), b.get(k)):
                s.bad("file", f"entry {k} of the file saved again differs: {str(b.get(k))[:200]}, was {str(a.get(k))[:200]}")
        if not s.v:
            if r.random() < 0.3:
                W3 = env.make_world(name="", print_mode=0, save_mode=0, show_mode=0, **spec["world"])
                W3.load_scenario(f2)
                s.compare("loading the file saved again", s0, state(W3))
                c["third-generation"] += 1
            if r.random() < 0.3:
                c["partial-loads"] += 1
                W4 = env.make_world(name="", print_mode=0, save_mode=0, show_mode=0, **spec["world"])
                W4.load_scenario(f1, demand=False)
                if W4.VEHICLES:
                    s.bad("partial", "demand=False loads vehicles")
                s.compare("loading the network only", s0, state(W4), demand=False)
                W4.load_scenario(f1, network=False)
                s.compare("loading network and demand one after the other", s0, state(W4))
                f5 = os.path.join(tmp, "c.scn")
                s.adjusted = bool(spec["world"].get("adjust_node_capacity"))
                W.save_scenario(f5, demand=False)
                W5 = env.make_world(name="", print_mode=0, save_mode=0, show_mode=0, **spec["world"])
                W5.load_scenario(f5)
                if W5.VEHICLES:
                    s.bad("partial", "a file saved with demand=False holds vehicles")
                s.compare("loading a file with the network only", s0, state(W5), demand=False)
                f6 = os.path.join(tmp, "d.scn")
                W.save_scenario(f6, network=False)
                if "Nodes" in dill.load(open(f6, "rb")):
                    s.bad("partial", "a file saved with network=False holds nodes")
                W5.load_scenario(f6, network=False)
                s.compare("loading network and demand from two files", s0, state(W5))
            W2.exec_simulation()
            c["runs-compared"] += 1
            d2 = digest.capture(W2)
            # random draws before the run (renaming) shift the random stream
            for t in digest.compare(final, d2):
                s.bad("run", f"the run of the loaded scenario differs (saved {when} the run): {t}")
        if job.get("process") and not s.v:
            c["other-process"] += 1
            p = subprocess.run([sys.executable, "-c", f"""
import sys, json
sys.path.insert(0, {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))!r})
from vmon import env, digest
with env.quiet():
    W = env.make_world(name="", print_mode=0, save_mode=0, show_mode=0, **json.loads({json.dumps(spec['world'])!r}))
    W.load_scenario({f1!r})
    W.exec_simulation()
    h = digest.hexdigest(digest.capture(W))
sys.stdout.write("HEX " + h)
"""], capture_output=True, text=True, timeout=150)
            got = [x for x in p.stdout.splitlines() if x.startswith("HEX ")]
            if not got:
                s.bad("other-process", f"loading in another process fails: {p.stderr[-300:]}")
            elif got[-1][4:] != digest.hexdigest(final):
                s.bad("other-process", "the run of the scenario loaded in another process differs")
    res = dict(viol=s.v, count=dict(c), sig=digest.hexdigest(final) if any(len(v.log_t_link) > 1 for v in W.VEHICLES.values()) else None)
    if res["sig"] is None:
        res.pop("sig")
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], topo=spec["topo"], world=spec["world"], links=len(spec["links"]), demands=[d["kind"] for d in spec["demands"]], vehicles=len(W.VEHICLES), saved=when)
    return res
