import math, random
from collections import defaultdict
import numpy as np
from vmon import scen, stepmon, env, lawcheck
ID = "P12"
RULE = lawcheck.RULE
TECHNIQUE = "online monitor of the route guidance state at every step: shortest costs and next links against an independent all-pairs computation on the observed link costs, preferences against the smoothing law, every observed route draw against the preference in force (arg-max in hard mode, sequential z-test otherwise)"
LEVEL_NOTE = "Exploration: every guidance update and every route draw of the executions generated is judged. The proportionality of draws is a statistical test (|z|>5.5 over thousands of draws, seed fixed)."
ASSUME = ["link costs are read through the public instantaneous travel times (whose correctness is the subject of P09 and P10) and the tolls of the scenario definition",
          "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ["guidance-update", "shortest-cost", "next-link", "noise-free-update", "noisy-update", "closed-link-update", "parallel-links-update", "tolled-update", "preference-row", "gradual", "first-update", "late-first-update", "dist-record", "hard-choice", "zero-preference-choice", "choice-draws", "added-vehicle", "departure-draws", "scenarios-python", "scenarios-cpp"]
NET = dict(mix=[("tworoute", 3), ("grid", 3), ("random", 2), ("diverge", 1), ("ring", 1)])


def jobs(tier, seed):
    T = dict(events=8, event_kinds=["toll", "toll", "cap_in", "u", "u"])
    P = [(60, False, dict(NET)), (50, False, dict(NET, hard=True)), (50, False, dict(NET, load=2.0, hard=False, deltan=1)), (40, False, dict(NET, **T)), (20, False, {}), (30, False, dict(topo="tworoute", hard=False, deltan=1, steps=220)),
         (80, True, dict(NET)), (60, True, dict(NET, hard=True)), (60, True, dict(NET, load=2.0, hard=False, deltan=1)), (60, True, dict(NET, **T)), (20, True, {}), (40, True, dict(topo="tworoute", hard=False, deltan=1, steps=220))]
    js = lawcheck.jobs_from(P, tier, seed, ID)
    for i in range(12 if tier == "quick" else 100):
        for cpp in (False, True):
            js.insert(i * 2 + cpp if not cpp else len(js), dict(seed=(seed * 7919 + i) * 2 + cpp, cpp=cpp, so="plain" if cpp else None, opts={}, dep=1))
    return js


def departures(seed):
    """single platoons departing one by one into empty links, with preferences that keep moving between two or three first links"""
    r = random.Random(seed)
    k = r.choice([2, 2, 3])
    dn, rt = r.choice([1, 2, 5]), 1
    dt = dn * rt
    nodes = [dict(name="o", x=0, y=0), dict(name="d", x=2, y=0)] + [dict(name=f"m{i}", x=1, y=i) for i in range(k)]
    steps = 400
    links = []
    for i in range(k):
        tab = [[t * dt, r.choice([0, 100, 200])] for t in range(0, steps, 10)]
        links.append(dict(name=f"a{i}", start="o", end=f"m{i}", length=20 * dt, free_flow_speed=20, number_of_lanes=1, toll=tab))
        links.append(dict(name=f"b{i}", start=f"m{i}", end="d", length=20 * dt, free_flow_speed=20, number_of_lanes=1))
    r.shuffle(links)
    w = dict(deltan=dn, reaction_time=rt, tmax=steps * dt, random_seed=r.randrange(1 << 30), hard_deterministic_mode=False, duo_update_time=10 * dt, duo_update_weight=r.choice([0.3, 0.5]), duo_noise=r.choice([0, 0.01]))
    if r.random() < 0.3:
        w["route_choice_update_gradual"] = True
    vehs = [dict(orig="o", dest="d", t=t * dt) for t in range(3, steps - 5, 4)]
    return dict(topo="departures", seed=seed, nodes=nodes, links=links, world=w, demands=[], vehicles=vehs, events=[])


class Guide:
    def __init__(self, m, spec, W, cpp, r):
        self.m, self.W, self.cpp, self.r, self.spec = m, W, cpp, r, spec
        w = spec["world"]
        self.w = w
        self.noise = 0.0 if w.get("hard_deterministic_mode") else w.get("duo_noise", 0.01)
        self.hard = bool(w.get("hard_deterministic_mode"))
        self.every = max(1, int(w.get("duo_update_time", 600) / m.dt))
        self.gradual = bool(w.get("route_choice_update_gradual"))
        a = w.get("duo_update_weight", 0.5)
        self.weight = min(1.0, a * m.dt / w.get("duo_update_time", 600)) if self.gradual else a
        self.names = [n["name"] for n in spec["nodes"]]
        self.idx = {x: i for i, x in enumerate(self.names)}
        self.L = [(l["name"], self.idx[l["start"]], self.idx[l["end"]]) for l in spec["links"]]
        self.lid = {l["name"]: i for i, l in enumerate(spec["links"])}
        self.s, self.e = np.array([x[1] for x in self.L]), np.array([x[2] for x in self.L])
        self.pref = np.zeros((len(self.names), len(self.L)))     # in force during the next step
        self.next = None
        self.toll = {l["name"]: l.get("toll") for l in spec["links"]}
        self.closed = {l["name"]: l.get("capacity_in") == 0 for l in spec["links"]}
        self.outs = defaultdict(list)
        for l in spec["links"]:
            self.outs[l["start"]].append(l["name"])
        self.end = {l["name"]: l["end"] for l in spec["links"]}
        self.start = {l["name"]: l["start"] for l in spec["links"]}
        self.viol, self.c, self.z = [], defaultdict(float), defaultdict(lambda: [0.0, 0.0, 0])
        self.prev = dict(m.prev)
        self.fresh = True

    def bad(self, rule, msg):
        if len(self.viol) < 8:
            self.viol.append((rule, f"T={self.m.T} {msg}"))

    # ---- choices made in this step, with the preferences in force during it -------------------------------------------
    def permitted(self, v, node, first, before):
        outs = list(self.outs[node])
        p = [x for x in outs if x in v.prefer]
        if p:
            outs = p
        outs = [x for x in outs if x not in v.avoid]
        if not first and self.w.get("no_cyclic_routing"):
            been = {self.start[l] for l in before}
            z = [x for x in outs if self.end[x] not in been]
            if z:
                outs = z
        return outs

    def judge(self, nm, v, perm, got, what):
        if got not in perm or len(perm) < 2:
            return                       # P11's business
        k = self.idx[v.dest]
        pr = [self.pref[k][self.lid[x]] for x in perm]
        g = pr[perm.index(got)]
        if self.hard:
            self.c["hard-choice"] += 1
            if g < max(pr) - 1e-9:
                self.bad("hard-choice", f"vehicle {nm} to {v.dest} {what} takes {got} with preference {g}, permitted links and preferences {dict(zip(perm, pr))}")
            return
        S = sum(pr)
        if 0 < S < 1e-250:
            return                       # decayed almost to nothing: the rounding of the preferences decides
        if S > 0:
            p = [x / S for x in pr]
            if g <= 0:
                self.bad("zero-preference", f"vehicle {nm} to {v.dest} {what} draws {got} with preference 0, permitted links and preferences {dict(zip(perm, pr))}")
        else:
            self.c["zero-preference-choice"] += 1
            p = [1 / len(perm)] * len(perm)
        self.c["choice-draws"] += 1
        self.c["departure-draws"] += what == "at-departure"
        for x, q in zip(perm, p):        # one term per permitted link, by share and by position, so that opposite errors do not cancel
            if 1e-9 < q < 1 - 1e-9:
                b = f"{what.split()[0]}-{'zero' if S <= 0 else 'low' if q < 0.45 else 'high' if q > 0.55 else 'mid'}-{'first' if x == perm[0] else 'last' if x == perm[-1] else 'inner'}"
                t = self.z[b]
                t[0] += (x == got) - q
                t[1] += q * (1 - q)
                t[2] += 1

    def choices(self):
        m, prev, cur = self.m, self.prev, self.m.prev
        dep = defaultdict(int)
        for nm, now in cur.items():
            if now[0] in ("run", "end", "abort") and prev.get(nm, ("home",))[0] in ("home", "wait"):
                dep[m.vehs[nm].orig] += 1
        for nm, (st, lk, x, vv, lane, nx) in cur.items():
            v = m.vehs[nm]
            p = prev.get(nm, ("home",))
            if v.route:
                continue
            if st == "run" and abs(x - m.links[lk].length) < 1e-9 and self.end[lk] != v.dest and nx is not None:
                if self.outs[self.end[lk]]:
                    self.judge(nm, v, self.permitted(v, self.end[lk], False, v.links), nx, "at-junction of " + lk)
            if p[0] == "wait" and st in ("run", "end", "abort") and v.links and nm not in m.ambiguous:
                first = v.links[0]
                perm = self.permitted(v, v.orig, True, [])
                if self.hard:
                    self.judge(nm, v, perm, first, "at-departure")
                elif dep[v.orig] == 1 and all(self.empty[l] for l in perm) and not any(self.caplim[l] for l in perm) and m.T > 2:
                    # unconditional only if no permitted link could have refused it
                    self.judge(nm, v, perm, first, "at-departure")
        self.prev = dict(cur)

    def snapshot_links(self):
        self.empty = {l: not s.order for l, s in self.m.links.items()}
        self.caplim = {l["name"]: l.get("capacity_in") is not None or any(e.get("link") == l["name"] and e["kind"] in ("cap_in", "u", "kappa") for e in self.spec["events"]) for l in self.spec["links"]}

    # ---- guidance update at the end of the step ------------------------------------------------------------------------
    def state(self):
        rc = self.W.ROUTECHOICE
        pref = np.array(self.W._cpp_world.route_preference if self.cpp else rc.route_pref, dtype=float)
        return np.array(rc.dist, dtype=float), np.array(rc.next, dtype=float), pref

    def shortest(self, cost):
        n = len(self.names)
        d = np.full((n, n), np.inf)
        np.fill_diagonal(d, 0)
        for (i, j), c in cost.items():
            if i != j:
                d[i, j] = min(d[i, j], c)
        for k in range(n):
            d = np.minimum(d, d[:, k:k + 1] + d[k:k + 1, :])
        return d

    def update(self):
        m, T = self.m, self.m.T
        dist, nxt, pref = self.state()
        n = len(self.names)
        c = self.c
        if T % self.every == 0:
            c["guidance-update"] += 1
            c["noisy-update" if self.noise else "noise-free-update"] += 1
            groups = defaultdict(list)
            for l, i, j in self.L:
                tt = float(m.links[l].obj.traveltime_instant[T])
                toll = scen.toll_fn(self.toll[l])(T * m.dt) if self.toll[l] else 0.0
                if toll:
                    c["tolled-update"] += 1
                if self.closed[l]:
                    c["closed-link-update"] += 1
                groups[i, j].append((tt, toll, self.closed[l]))
            lo, hi = {}, {}
            for p, g in groups.items():
                if len(g) > 1:
                    c["parallel-links-update"] += 1
                inf = any(x[2] for x in g)
                lo[p] = math.inf if inf else sum(t + q for t, q, _ in g) / len(g)
                hi[p] = math.inf if inf else sum(t * (1 + self.noise) + q for t, q, _ in g) / len(g)
            Dlo = self.shortest(lo)
            Dhi = self.shortest(hi) if self.noise else Dlo
            if dist.shape != (n, n):
                self.bad("shortest-cost", f"distance table of shape {dist.shape} for {n} nodes")
                return
            c["shortest-cost"] += n * n
            tol = 1e-6 * (1 + np.where(np.isfinite(Dhi), Dhi, 0))
            with np.errstate(invalid="ignore"):
                wrong = (np.isfinite(dist) != np.isfinite(Dlo)) | (np.isfinite(Dlo) & ((dist < Dlo - tol) | (dist > Dhi + tol)))
            if wrong.any():
                i, j = map(int, np.argwhere(wrong)[0])
                self.bad("shortest-cost", f"cost {self.names[i]}->{self.names[j]} is {dist[i, j]}, shortest on the current link costs {Dlo[i, j]}" + (f"..{Dhi[i, j]}" if self.noise else ""))
                return
            fin = {p: v for p, v in lo.items() if math.isfinite(v)}
            for i in range(n):
                for k in range(n):
                    if i == k or not np.isfinite(dist[i, k]):
                        if i != k and 0 <= nxt[i, k] < n and (i, int(nxt[i, k])) in fin:
                            self.bad("next-link", f"a next node is given from {self.names[i]} to the unreachable {self.names[k]}")
                        continue
                    j = int(nxt[i, k])
                    c["next-link"] += 1
                    t = 1e-6 * (1 + dist[i, k])
                    if (i, j) not in fin or not (lo[i, j] + dist[j, k] <= dist[i, k] + t and hi[i, j] + dist[j, k] >= dist[i, k] - t):
                        self.bad("next-link", f"next node from {self.names[i]} to {self.names[k]} is {self.names[j] if 0 <= j < n else j}, which is not on a shortest path (cost {dist[i, k]})")
                        return
            rec = self.W.ROUTECHOICE.dist_record
            c["dist-record"] += 1
            keys = [q for q in rec]
            if T not in rec or not np.array_equal(np.nan_to_num(np.array(rec[T], dtype=float), posinf=-1), np.nan_to_num(dist, posinf=-1)) or len(keys) != T // self.every + 1:
                self.bad("dist-record", f"recorded steps {sorted(keys)[-3:]} ({len(keys)} records, {T // self.every + 1} updates); record of this step equals the guidance: {T in rec and bool(np.array_equal(np.array(rec[T]), dist))}")
            self.next, self.dist = nxt, dist
        else:
            if not np.array_equal(nxt, self.next) or not np.array_equal(np.nan_to_num(dist, posinf=-1), np.nan_to_num(self.dist, posinf=-1)):
                self.bad("unscheduled-update", f"guidance changed in a step that is not a multiple of {self.every}")
        if T % self.every == 0 or self.gradual:
            for k in range(n):
                w = self.weight
                if self.pref[k].sum() == 0:
                    w = 1.0
                    if (self.e == self.next[self.s, k]).any():
                        c["first-update"] += 1
                        if T > 0:
                            c["late-first-update"] += 1
                self.pref[k] = (1 - w) * self.pref[k] + w * (self.e == self.next[self.s, k])
            c["gradual"] += self.gradual
        c["preference-row"] += n
        if pref.shape != self.pref.shape or (np.abs(pref - self.pref) > 1e-9).any():
            d = np.abs(pref - self.pref) if pref.shape == self.pref.shape else np.ones((1, 1))
            k, l = map(int, np.unravel_index(np.argmax(d), d.shape))
            self.bad("preference", f"preference of link {self.L[l][0]} for destination {self.names[k]} is {pref[k, l]}, the smoothing law gives {self.pref[k, l]} (weight {self.weight}, gradual {self.gradual})")
            self.pref = pref.copy() if pref.shape == self.pref.shape else self.pref
        if (pref < -1e-12).any() or (pref > 1 + 1e-9).any():
            self.bad("preference-range", f"preferences between {pref.min()} and {pref.max()}")
        for e in m.events.get(T, ()):
            if e["kind"] == "toll":
                self.toll[e["link"]] = e["toll"]
            elif e["kind"] == "cap_in":
                self.closed[e["link"]] = e["value"] == 0


def opening(spec, r, dt):
    """links that are closed at first and opened during the simulation, mostly such that destinations become reachable only then"""
    if r.random() > 0.25:
        return
    steps = int(spec["world"]["tmax"] / dt)
    into = defaultdict(list)
    for l in spec["links"]:
        into[l["end"]].append(l)
    ends = [x for d in spec["demands"] if d["kind"] == "od" for x in [d["dest"]]]
    n = r.choice(ends) if ends and r.random() < 0.7 else r.choice(sorted(into))
    ls = into[n] if len(into[n]) <= 2 else [r.choice(into[n])]
    for l in ls:
        l["capacity_in"] = 0
        k = r.randrange(1, max(2, steps // 2))
        spec["events"].append(dict(step=k, kind="cap_in", link=l["name"], value=r.choice([0.5, 1.0, 2.0])))
        if r.random() < 0.2:
            spec["events"].append(dict(step=k + r.randrange(1, 30), kind="cap_in", link=l["name"], value=0))
    spec["events"].sort(key=lambda e: e["step"])


def run(job):
    spec = job.get("spec") or (departures(job["seed"]) if job.get("dep") else scen.generate(job["seed"], **job["opts"]))
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0xC12)
    w = spec["world"]
    dt = w["deltan"] * w["reaction_time"]
    if r.random() < 0.5 and not job.get("dep"):
        w["duo_update_time"] = r.choice([dt, 2 * dt, 5 * dt, 10 * dt, 7.3 * dt])
    if r.random() < 0.4:
        w["duo_noise"] = 0
    if not job.get("dep") and not job.get("spec"):
        opening(spec, random.Random(job["seed"] ^ 0xC13), dt)
    g = {}
    late = r.random() < 0.4 and not job.get("dep") and spec["demands"] and spec["demands"][0]["kind"] == "od"
    add = sorted(r.randrange(1, max(2, int(w["tmax"] / dt) - 2)) for _ in range(r.randint(1, 6))) if late else []

    def setup(m):
        g["m"] = m

    def mid(m):
        G = g.get("G")
        if G is None or m.dead:
            return
        G.choices()
        G.update()
        G.snapshot_links()
        for k in add:
            if k == m.T and not any(d["kind"] != "od" for d in spec["demands"][:1]):
                d = spec["demands"][0]
                for _ in range(3):
                    W.addVehicle(d["orig"], d["dest"], (m.T + 1) * m.dt)
                    G.c["added-vehicle"] += 1
    with env.quiet(), np.errstate(all="ignore"):
        W = scen.build_world(spec, cpp=cpp)
        orig_start = stepmon.Monitor.start

        class M(stepmon.Monitor):
            def start(self):
                orig_start(self)
                g["G"] = Guide(self, spec, W, cpp, r)
                g["G"].snapshot_links()
        keep = stepmon.Monitor
        stepmon.Monitor = M
        try:
            m = stepmon.run(spec, cpp, W=W, mid=mid, setup=setup)
        finally:
            stepmon.Monitor = keep
    G = g["G"]
    viol = G.viol + [(rule, msg) for p, rule, msg in m.viol if p == ID]
    c = dict(G.c)
    eng = "cpp" if cpp else "python"
    for b, (s, v, k) in G.z.items():
        c[f"z-{eng}-{b}-sum"] = s
        c[f"z-{eng}-{b}-var"] = v
    c["steps-observed"] = m.T + 1
    c["scenarios-" + eng] = 1
    foreign = [x for x in m.viol if x[0] != ID]
    if foreign:
        c["violations-of-other-properties"] = 1
    res = dict(viol=viol, count=c, foreign=foreign[:2])
    if m.count["transferred"] or m.count["generated"]:
        res["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        res["sample"] = dict(seed=job["seed"], engine=eng, topo=spec["topo"], updates=c.get("guidance-update", 0), draws=c.get("choice-draws", 0), every=G.every, noise=G.noise, gradual=G.gradual)
    return res


def final(res, count):
    out, zs = [], {}
    for k in [k for k in count if k.startswith("z-") and k.endswith("-sum")]:
        var = count[k[:-4] + "-var"]
        if var > 20:
            z = count[k] / math.sqrt(var)
            zs[k[2:-4]] = round(z, 3)
            if abs(z) > 5.5:
                out.append(("draw-proportion", f"{k[2:-4]}: links were drawn {count[k]:+.0f} times compared with their share of the preferences ({z:+.1f} standard deviations, variance {var:.0f})", None))
    return dict(viol=out, choice_z=zs)
