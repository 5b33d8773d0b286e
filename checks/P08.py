import math, random
from vmon import env, lawcheck, scen
ID = "P08"
RULE = lawcheck.RULE + (" In addition demand calls of all six kinds and individual vehicles are issued on random networks and every vehicle they create is "
                        "compared with an independent account of the request (origin, destination, departure step, volume in every prefix of the window, attribute).")
TECHNIQUE = "online step monitor of departures (independent one-step law, shadow state) plus a conservation monitor of every demand call against the vehicles it created, on both engines"
LEVEL_NOTE = "Exploration: holds on every step of the executions generated and every demand call made; unobserved scenarios are not covered. Trusts the step law in vmon/stepmon.py, cross-checked on both engines."
ASSUME = ["the monitor reads the live state through public attributes at the end of every step", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['ready', 'generated', 'queue-head', 'scenarios-python', 'scenarios-cpp', 'call-od', 'call-p2p', 'call-area2area', 'call-area2area2', 'call-nodes2nodes', 'call-nodes2nodes2', 'call-vehicle',
            'several-platoons-per-step', 'demand-vehicles', 'attribute-carried']


def jobs(tier, seed):
    P = [(140, False, {}), (70, False, dict(mix=[("corridor", 2), ("merge", 2), ("ring", 2)], load=2.5)), (40, False, dict(odd_dt=1.0)), (140, True, {}), (80, True, dict(load=2.5)),
         (30, False, dict(pulses=1.0)), (30, True, dict(pulses=1.0)),
         (30, False, dict(vex=1, events=4, event_kinds=["addveh", "addveh", "adddem"])), (40, True, dict(vex=1, events=4, event_kinds=["addveh", "addveh", "adddem"])),
         (120, False, dict(demand=1)), (120, True, dict(demand=1))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def _prefix(vs, s0, s1, total, deltan, bad, what, tol):
    """vs: departure steps (one per platoon); requested: `total` vehicles, uniformly over steps s0..s1-1"""
    vs = sorted(vs)
    n = s1 - s0
    if vs and (vs[0] < s0 or vs[-1] >= max(s1, s0 + 1)):
        bad("demand-window", f"{what}: departures in steps {vs[0]}..{vs[-1]}, requested {s0}..{s1 - 1}")
        return
    k = 0
    for s in range(s0, s1):
        while k < len(vs) and vs[k] <= s:
            k += 1
        due = total * (s - s0 + 1) / n
        if not (-tol <= due - k * deltan < deltan + tol):
            bad("demand-volume", f"{what}: {k * deltan} vehicles until step {s}, {due:.6g} requested until then")
            return


def _demand(job):
    r = random.Random(job["seed"] * 31 + 7)
    cpp = job["cpp"]
    viol, c = [], {}

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n

    def bad(rule, msg):
        viol.append((rule, f"{'C++' if cpp else 'Python'} seed {job['seed']}: {msg}"))
    deltan = r.choice([1, 2, 3, 5, 10])
    rt = r.choice([0.5, 1, 1, 2])
    dt = deltan * rt
    H = 200 * dt
    W = env.make_world(cpp=cpp, name="d", deltan=deltan, reaction_time=rt, tmax=H, random_seed=r.randrange(1 << 30), print_mode=0, save_mode=0, show_mode=0)
    nn = r.randint(6, 12)
    pos = {}
    for i in range(nn):
        pos[f"n{i}"] = (r.uniform(0, 10), r.uniform(0, 10))
        W.addNode(f"n{i}", *pos[f"n{i}"])
    arcs = set()
    for i in range(r.randint(nn, 2 * nn)):
        a, b = r.sample(range(nn), 2)
        arcs.add((f"n{a}", f"n{b}"))
    for a, b in sorted(arcs):
        W.addLink(a + b, a, b, 500, 20, 0.2)
    src = {a for a, b in arcs}
    snk = {b for a, b in arcs}
    if len(src) < 2 or len(snk) < 2:
        return dict(viol=[], count={})

    def inside(x, y, rad):
        return [n for n in pos if (pos[n][0] - x) ** 2 + (pos[n][1] - y) ** 2 < rad ** 2]

    def nearest(x, y):
        return min(pos, key=lambda n: (pos[n][0] - x) ** 2 + (pos[n][1] - y) ** 2)

    def arg(n):
        return n if r.random() < 0.5 else W.get_node(n)
    known = {}
    sig = []
    for call in range(r.randint(3, 9)):
        kind = r.choice(["od", "od", "p2p", "area2area", "area2area2", "nodes2nodes", "nodes2nodes2", "vehicle"])
        a0 = r.randrange(0, 120)
        a1 = a0 + r.choice([1, 2, 5, 17, 40, r.randint(1, 75)])
        frac = r.random() < 0.3
        t0 = (a0 + (r.uniform(0, 0.9) if frac else 0)) * dt
        t1 = (a1 + (r.uniform(0.05, 0.9) if frac else 0)) * dt
        s0, s1 = int(t0 / dt), int(t1 / dt)
        per_step = r.choice([0.05, 0.3, 0.7, 1, 1.3, 2, 2.5, 3.7, r.uniform(0, 4), 0]) * deltan
        per_step = min(per_step, 300 * deltan / max(1, s1 - s0))
        flow = per_step / dt
        kw = {}
        if r.random() < 0.4 and per_step > 0:
            kw["volume"] = flow * (t1 - t0)
        else:
            kw["flow"] = flow
        att = None
        if r.random() < 0.5:
            att = kw["attribute"] = {"call": call, "seed": job["seed"]}
        rate = (kw["volume"] / (t1 - t0) if "volume" in kw else flow)
        o, d = r.sample(sorted(pos), 2)
        pairs = exp = None
        if kind == "od":
            W.adddemand(arg(o), arg(d), t0, t1, **kw)
            pairs = [(o, d)]
        elif kind == "p2p":
            g = [r.uniform(-1, 11) for _ in range(4)]
            W.adddemand_point2point(*g, t0, t1, **kw)
            pairs = [(nearest(*g[:2]), nearest(*g[2:]))]
        elif kind == "vehicle":
            kw.pop("flow", 0), kw.pop("volume", 0)
            ts = r.random() < 0.3
            W.addVehicle(arg(o), arg(d), s0 if ts else t0, **(dict(departure_time_is_time_step=1) if ts else {}), **kw)
        else:
            if kind.startswith("area"):
                A = (r.uniform(0, 10), r.uniform(0, 10), r.uniform(0.5, 6))
                Z = (r.uniform(0, 10), r.uniform(0, 10), r.uniform(0.5, 6))
                os_ = [n for n in inside(*A) if n in src] or [nearest(*A[:2])]
                ds_ = [n for n in inside(*Z) if n in snk] or [nearest(*Z[:2])]
                args = A + Z
            else:
                lo, ld = r.sample(sorted(pos), r.randint(1, 4)), r.sample(sorted(pos), r.randint(1, 4))
                os_, ds_ = [n for n in lo if n in src], [n for n in ld if n in snk]
                args = ([arg(n) for n in lo], [arg(n) for n in ld])
            if not os_ or not ds_ or (set(os_) & set(ds_) and len(ds_) == 1):
                continue
            getattr(W, "adddemand_" + kind)(*args, t0, t1, **kw)
            pairs = [(x, y) for x in os_ for y in ds_]
        new = [v for n, v in W.VEHICLES.items() if n not in known]
        if len(W.VEHICLES) != len(known) + len(new):
            bad("demand-vehicles", f"{kind}: vehicles disappeared")
        for v in new:
            known[v.name] = v
        cnt("call-" + kind)
        cnt("demand-vehicles", len(new))
        step = {}
        for v in new:
            td = v.departure_time_in_second
            s = round(td / dt)
            if abs(s * dt - td) > 1e-9 * max(1, td):
                s = int(td / dt)
            step[v.name] = s
            if (att is not None or v.attribute is not None) and v.attribute != att:
                bad("demand-attribute", f"{kind}: vehicle {v.name} carries {v.attribute!r}, given {att!r}")
            elif att is not None:
                cnt("attribute-carried")
            if v.state != "home":
                bad("demand-state", f"{kind}: a new vehicle is in state {v.state}")
        od = [(v.orig.name, v.dest.name, step[v.name]) for v in new]
        sig.append((kind, len(new), sorted(od)[:3]))
        what = f"{kind} {s0}..{s1} rate {rate:.4g}/s deltan {deltan} dt {dt}"
        if kind == "vehicle":
            if len(new) != 1 or od[0] != (o, d, s0):
                bad("demand-vehicle", f"requested one vehicle {o}->{d} at step {s0}, got {od[:3]}")
            continue
        wrong = [x for x in od if (x[0], x[1]) not in pairs]
        if wrong:
            bad("demand-od", f"{what}: vehicles {wrong[:3]} outside the requested origins and destinations {pairs[:4]}")
            continue
        if kind.endswith("2") and kind != "p2p":
            vol = kw["volume"] if "volume" in kw else flow * (t1 - t0)
            n = len(new)
            if not (vol - deltan - 1e-6 < n * deltan <= vol + 1e-6):
                bad("demand-volume", f"{what}: {n * deltan} vehicles created, {vol:.6g} requested")
            if any(x[0] == x[1] for x in od):
                bad("demand-od", f"{what}: a trip from a node to itself")
            ss = sorted(x[2] for x in od)
            if ss and (ss[0] < s0 or ss[-1] > s1):
                bad("demand-window", f"{what}: departures in steps {ss[0]}..{ss[-1]}")
            for k, s in enumerate(ss):
                # the k-th platoon is due when the uniform flow has produced between k-1 and k+2 platoons
                lo, hi = t0 + (k - 1) * (t1 - t0) / max(1, n) - dt, t0 + (k + 2) * (t1 - t0) / max(1, n) + dt
                if not lo <= s * dt <= hi:
                    bad("demand-profile", f"{what}: platoon {k} of {n} departs at {s * dt}, uniform flow gives {lo:.5g}..{hi:.5g}")
                    break
            os_, ds_ = {p[0] for p in pairs}, {p[1] for p in pairs}
            if n > 60 * len(os_) and {x[0] for x in od} != os_ or n > 60 * len(ds_) and {x[1] for x in od} != {d for d in ds_ if set(os_) - {d}}:
                bad("demand-od", f"{what}: {n} platoons never use some of the origins or destinations")
            continue
        tot = rate * dt * (s1 - s0) / len(pairs)
        seen = set()
        for p in pairs:
            vs = [x[2] for x in od if (x[0], x[1]) == p]
            if len(set(vs)) < len(vs):
                cnt("several-platoons-per-step")
            if s1 > s0:
                _prefix(vs, s0, s1, tot, deltan, bad, what + f" {p}", 1e-6 * max(1, deltan))
            elif vs:
                bad("demand-volume", f"{what}: {len(vs)} vehicles for an empty window")
    return dict(viol=viol, count=c, sig=str(hash(str(sig))), sample=dict(seed=job["seed"], engine="cpp" if cpp else "python", calls=[s[:2] for s in sig]) if job["seed"] % 41 == 0 else None)


def run(job):
    if job["opts"].get("demand"):
        with env.quiet():
            return _demand(job)
    return lawcheck.run_law(job, ID)
