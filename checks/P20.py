"""P20 copies and pickles: at random steps the world is copied or saved; original, copies and an undisturbed reference run must end in exactly the same picture and share nothing."""
import hashlib, json, os, random, subprocess, sys, tempfile, types
from collections import defaultdict, deque
import numpy as np
from vmon import scen, env, digest

TECHNIQUE = "differential trace oracle: undisturbed run, copied original and each copy compared bit for bit after every phase; object-graph monitor that walks both worlds and reports any shared mutable object"
LEVEL_NOTE = "Exploration of sampled scenarios and copy moments, in one process and across processes. Python engine only (the C++ engine declares copying unsupported)."
ASSUME = ["user functions and tolls do not refer to objects of a particular world"]
RULE = ("Scenarios by seed over all topologies with run-time control events, vehicles with routing constraints and all settings; copies before the start, at 1-3 random steps, at consecutive steps and after the end, copies of copies, files loaded in the same and in another process; "
        "the original or the copy is then changed, given new vehicles, analysed or deleted. Non-trivial: vehicles moved; distinct by the final picture.")
REQUIRED = ["copies", "files", "other-process", "copy-before-start", "copy-mid", "copy-at-end", "copy-of-copy", "copy-with-running-vehicles", "copy-with-queue", "copy-of-large-network", "file-overwritten", "graphs-walked", "objects-walked", "original-changed", "copy-changed", "original-deleted", "runs-compared", "state-at-copy-compared", "events-after-copy"]
BUDGET = dict(quick=45, thorough=700)


def jobs(tier, seed):
    n = 190 if tier == "quick" else 5000
    base = seed * 1_000_003 + 20 * 20_011
    out = []
    for i in range(n):
        opts = dict(max_platoons=80, p_vehicles=0.7)
        if i % 2:
            opts["events"] = 5
            if i % 4 == 1:
                opts.update(vex=1, p_vehicles=1.0, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
        out.append(dict(seed=(base + i) % (1 << 31), cpp=False, so=None, timeout=200, opts=opts, process=i % 23 == 0))
    out.sort(key=lambda j: not j["process"])
    return out


class Tick:
    """run-time control events, applied at the end of their step; holds plain data only"""
    def __init__(self, events):
        self.evs = defaultdict(list)
        for e in events:
            self.evs[e["step"]].append(e)
        self.n = 0

    def __call__(self, W):
        for e in self.evs.get(W.T, ()):
            scen.apply_event(W, e)
            self.n += 1


ATOM = (int, float, str, bool, bytes, complex, type(None), type, types.ModuleType, types.BuiltinFunctionType, np.number, np.dtype, frozenset, np.ufunc)


def walk(root, limit=400000):
    """ids of all mutable objects reachable through attributes and containers"""
    seen, st = {}, [(root, "W")]
    while st and len(seen) < limit:
        o, path = st.pop()
        if isinstance(o, ATOM) or id(o) in seen:
            continue
        if isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    st.append((c.cell_contents, path + "<closure>"))
                except ValueError:
                    pass
            continue
        if isinstance(o, types.MethodType):
            st.append((o.__self__, path + ".__self__"))
            continue
        seen[id(o)] = (o, path)
        if isinstance(o, dict):
            for k, v in o.items():
                st.append((k, path + ".key"))
                st.append((v, path + f"[{k!r}]" if isinstance(k, (str, int)) else path + "[..]"))
        elif isinstance(o, (list, tuple, set, deque)):
            if isinstance(o, tuple):
                seen.pop(id(o))      # immutable itself, and equal literals may be one object
                if all(isinstance(x, ATOM) for x in o):
                    continue
                seen[id(o)] = (o, path)
            for i, x in enumerate(o):
                if not isinstance(x, ATOM):
                    st.append((x, path + f"[{i}]"))
        elif isinstance(o, np.ndarray):
            if o.dtype == object:
                for x in o.flat:
                    st.append((x, path + "[]"))
        elif hasattr(o, "__dict__") and type(o).__module__.startswith(("uxsim", "checks", "vmon")):
            for k, v in vars(o).items():
                st.append((v, path + "." + k))
    return seen


class C:
    def __init__(s, job):
        s.r = random.Random(job["seed"] ^ 0xC20)
        s.v, s.c = [], defaultdict(int)

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg[:700]))

    def graphs(s, A, B, what):
        a, b = walk(A), walk(B)
        s.c["graphs-walked"] += 1
        s.c["objects-walked"] += len(a) + len(b)
        both = [k for k in a if k in b and a[k][0] is b[k][0]]
        both = [k for k in both if not isinstance(a[k][0], (types.FunctionType,)) and type(a[k][0]).__module__.split(".")[0] not in ("PIL", "matplotlib", "pandas", "tqdm", "logging", "threading", "io", "_io", "contextlib")]
        if both:
            s.bad("shared", f"{what}: {len(both)} objects are shared with the original, e.g. {a[both[0]][1]} ({type(a[both[0]][0]).__name__})")
        for W, nm in ((B, "copy"),):
            for o in list(W.NODES) + list(W.LINKS) + list(W.VEHICLES.values()):
                if o.W is not W:
                    s.bad("foreign", f"{what}: {o!r} of the {nm} belongs to another world")
                    break
            ls, vs = {id(x) for x in W.LINKS}, {id(x) for x in W.VEHICLES.values()}
            for l in W.LINKS:
                if any(id(v) not in vs or v.link is not l for v in l.vehicles) or W.get_node(l.start_node.name) is not l.start_node or l.start_node.outlinks.get(l.name) is not l or l.end_node.inlinks.get(l.name) is not l or W.get_link(l.name) is not l:
                    s.bad("structure", f"{what}: link {l.name} of the {nm} is not connected to the nodes and vehicles of its world")
                    break
            for v in W.VEHICLES.values():
                if (v.link is not None and id(v.link) not in ls) or any(x is not None and id(x) not in vs for x in (v.leader, v.follower)) or W.get_node(v.orig.name) is not v.orig:
                    s.bad("structure", f"{what}: vehicle {v.name} of the {nm} refers to objects outside its world")
                    break

    def equal(s, ref, W, what, **kw):
        d = digest.capture(W, **kw)
        for t in digest.compare(ref, d):
            s.bad("run" if "end" in what else "state", f"{what}: {t}")
        return d


def make(spec):
    W = scen.build_world(spec)
    W.user_function = Tick(spec["events"])
    return W


def run(job):
    s = C(job)
    r, c = s.r, s.c
    spec = scen.generate(job["seed"], **job["opts"])
    dt = spec["world"]["deltan"] * spec["world"]["reaction_time"]
    with env.quiet(), tempfile.TemporaryDirectory() as tmp:
        ref = make(spec)
        ref.exec_simulation()
        final = digest.capture(ref)
        total = ref.TSIZE
        W = make(spec)
        if r.random() < 0.25:
            ks = [0] + sorted(r.sample(range(1, total), 1))
        elif r.random() < 0.3:
            k = r.randrange(1, max(2, total - 2))
            ks = [k, k + 1]
        else:
            ks = sorted(r.sample(range(1, total), min(r.choice([1, 2, 3]), total - 1)))
        if r.random() < 0.2:
            ks.append(total)
        copies, T = [], 0
        script = None
        for k in ks:
            if k > T:
                W.exec_simulation(duration_t2=(k - T) * dt) if k < total else W.exec_simulation()
                T = W.T
            c["copy-before-start" if k == 0 else "copy-at-end" if k >= total else "copy-mid"] += 1
            c["copy-of-large-network"] += len(W.NODES) + len(W.LINKS) > 90
            c["copy-with-running-vehicles"] += bool(k and W.VEHICLES_RUNNING)
            c["copy-with-queue"] += any(n.generation_queue for n in W.NODES)
            c["events-after-copy"] += any(e["step"] > k for e in spec["events"])
            if k:
                before = digest.capture(W)
            how = r.choice(["copy", "copy", "save"])
            if how == "copy":
                Z = W.copy()
                c["copies"] += 1
            else:
                f = os.path.join(tmp, f"w{k}" if job["seed"] % 2 else "w")
                if not job["seed"] % 2 and not os.path.exists(f + ".pkl") and r.random() < 0.5:
                    scen.build_world(spec).save(f)      # an older, other file is there
                c["file-overwritten"] += os.path.exists(f + ".pkl")
                W.save(f)
                import dill
                with open(f + ".pkl", "rb") as h:
                    Z = dill.load(h)
                c["files"] += 1
            if r.random() < 0.25:
                Z = Z.copy()
                c["copy-of-copy"] += 1
            if k:
                c["state-at-copy-compared"] += 1
                s.equal(before, W, f"{how} at step {k} changes the original")
                s.equal(before, Z, f"the {how} at step {k} differs from the original")
            if len(W.VEHICLES) < 400:
                s.graphs(W, Z, f"{how} at step {k}")
            if job.get("process") and script is None and 0 < k < total:
                W.save(os.path.join(tmp, "p"))
                script = k
            copies.append((k, how, Z))
        other = None
        if script is not None:
            c["other-process"] += 1
            other = subprocess.Popen([sys.executable, "-c", f"""
import sys
sys.path.insert(0, {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))!r})
from vmon import env, digest
env.uxsim()
import dill
from checks import P20
with env.quiet():
    W = dill.load(open({os.path.join(tmp, 'p.pkl')!r}, "rb"))
    W.exec_simulation()
    h = digest.hexdigest(digest.capture(W))
sys.stdout.write("HEX " + h)
"""], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        # disturb one of the worlds before the others go on
        fate = r.choice(["none", "none", "original-changed", "copy-changed", "original-deleted"])

        def disturb(X):
            for l in X.LINKS[:3]:
                l.capacity_out = 0.1
                l.congestion_pricing = None
                l.attribute = "changed"
            for n in X.NODES:
                n.attribute = ["changed"]
            if X.check_simulation_ongoing():
                X.LINKS[0].change_free_flow_speed(5)
                X.adddemand(spec["links"][0]["start"], spec["links"][0]["end"], X.T * dt, X.T * dt + 20 * dt, 1.0)
            for v in list(X.VEHICLES.values())[:5]:
                v.links_avoid = list(X.LINKS[:1])
                v.log_t.clear() if r.random() < 0.5 else v.log_x.append(-7)
            X.rng.random(50)
            try:
                X.exec_simulation()
            except Exception:
                pass        # the disturbed world is only there to disturb
        order = [("the original", W)] + [(f"the {how} of step {k}", Z) for k, how, Z in copies]
        if fate == "original-changed":
            disturb(W)
            order.pop(0)
        elif fate == "original-deleted":
            W.__dict__.clear()
            del W
            order.pop(0)
        elif fate == "copy-changed":
            disturb(copies[-1][2])
            order.pop()
        if fate != "none":
            c[fate] += 1
        if r.random() < 0.5:
            # interleaved instead of one after the other
            while any(X.check_simulation_ongoing() for _, X in order):
                for _, X in order:
                    if X.check_simulation_ongoing():
                        X.exec_simulation(duration_t2=r.choice([1, 7, 30]) * dt)
        else:
            r.shuffle(order)
            for _, X in order:
                X.exec_simulation()
        for what, X in order:
            c["runs-compared"] += 1
            s.equal(final, X, f"{what} at the end (copies at steps {ks}, {fate})")
        if other is not None:
            try:
                out, err = other.communicate(timeout=150)
            except subprocess.TimeoutExpired:
                other.kill()
                raise
            got = [x for x in out.splitlines() if x.startswith("HEX ")]
            if not got:
                s.bad("other-process", f"continuing the file of step {script} in another process fails: {err[-300:]}")
            elif got[-1][4:] != digest.hexdigest(final):
                s.bad("other-process", f"the world saved at step {script} and continued in another process ends differently")
    res = dict(viol=s.v, count=dict(c))
    if any(len(v.log_t_link) > 1 for v in ref.VEHICLES.values()):
        res["sig"] = digest.hexdigest(final)
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], topo=spec["topo"], steps=total, copied_at=ks, then=fate, vehicles=len(ref.VEHICLES))
    return res
