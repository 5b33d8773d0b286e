"""Shared by the checks decided by the online step monitor (stepmon): each check brings its workload profiles and keeps the
violations tagged with its own property."""
import hashlib, json, math, random
from . import scen, stepmon, env


def jobs_from(profiles, tier, seed, pid, scale=None):
    """profiles: list of (n_quick, cpp, opts). Seeds are disjoint per check and run seed."""
    base = seed * 1_000_003 + int(pid[1:]) * 20_011
    out = []
    mult = 1 if tier == "quick" else (scale or 12)
    k = 0
    for n, cpp, opts in profiles:
        for i in range(int(n * mult)):
            k += 1
            out.append(dict(seed=(base + k) % (1 << 31), cpp=cpp, opts=opts, so="plain" if cpp else None))
    # python first (the extension is still compiling), interleaving profiles so that a deadline cuts all of them evenly
    rnd = random.Random(base)
    py = [j for j in out if not j["cpp"]]
    cp = [j for j in out if j["cpp"]]
    rnd.shuffle(py)
    rnd.shuffle(cp)
    if not cp:
        return py
    h = len(py) // 2
    rest = py[h:] + cp
    rnd.shuffle(rest)
    return py[:h] + rest


def signature(m):
    h = hashlib.blake2b(digest_size=8)
    for nm, v in m.vehs.items():
        h.update(repr((nm, v.links, v.entry_t, v.ended_at)).encode())
    return h.hexdigest()


def run_law(job, pid, extra=None, run_kw=None):
    spec = job.get("spec") or scen.generate(job["seed"], **job["opts"])
    with env.quiet():
        m = stepmon.run(spec, job["cpp"], **(run_kw or {}))
    viol = [(r, msg) for p, r, msg in m.viol if p == pid]
    foreign = [(p, r, msg) for p, r, msg in m.viol if p != pid]
    c = dict(m.count)
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if job["cpp"] else "python")] = 1
    c["vehicles"] = len(m.vehs)
    if foreign:
        c["violations-of-other-properties"] = len(foreign)
    r = dict(viol=viol, count=c, foreign=foreign[:2])
    if m.count["transferred"] or m.count["generated"]:
        r["sig"] = signature(m)
    if job["seed"] % 97 == 0:
        r["sample"] = dict(seed=job["seed"], engine="cpp" if job["cpp"] else "python", topo=spec["topo"], world=spec["world"], links=len(spec["links"]),
                           demands=len(spec["demands"]), steps=m.T + 1, transitions=m.count["transitions"])
    if extra:
        extra(m, spec, r)
    return r


RULE = ("Scenarios are drawn by seed over corridors, merges, diverges, signalised crossings, grids, two-route, ring, random and dead-end networks "
        "(lanes 1-4, capacities, priorities, signals, tolls, routing constraints, run-time control events); every step of the real engine is "
        "judged by an independent one-step law. Non-trivial: at least one vehicle entered a link; distinct by the hash of all vehicles' links and entry/exit steps.")


def link_visits(m, l):
    """observed visits of a link: [(entry step, exit step, vehicle, trip ended here)], in exit order"""
    q, out = {}, []
    for T, nm in m.entries[l]:
        q.setdefault(nm, []).append(T)
    pos = {nm: 0 for nm in q}
    for T, nm in m.exits[l]:
        e = q[nm][pos[nm]]
        pos[nm] += 1
        v = m.vehs[nm]
        out.append((e, T, nm, v.ended_at == T and v.links[-1] == l and pos[nm] == len(q[nm])))
    return out


def actual_tt(m, l, n, ff0):
    """actual link travel time per entry step, from the observed visits"""
    exp = [ff0] * n
    for e, T, nm, is_end in link_visits(m, l):
        tt = (T - e + (1 if is_end else 0)) * m.dt
        for i in range(e, n):
            exp[i] = tt
    return exp


def all_pairs(nodes, arcs):
    """least cost between all pairs; arcs: (a, b, cost). Bellman-Ford style relaxation, independent of scipy"""
    d = {a: {b: math.inf for b in nodes} for a in nodes}
    for a in nodes:
        d[a][a] = 0.0
        todo = [a]
        adj = {}
        for x, y, c in arcs:
            adj.setdefault(x, []).append((y, c))
        while todo:
            x = todo.pop()
            for y, c in adj.get(x, ()):
                z = d[a][x] + c
                if z < d[a][y] - 1e-12:
                    d[a][y] = z
                    todo.append(y)
    return d
