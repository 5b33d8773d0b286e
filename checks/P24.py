"""P24 kinematic-wave theory: simulated totals, travel times, densities and waves are compared with closed-form solutions of the triangular model."""
import hashlib, math, random
from collections import defaultdict
import numpy as np
from vmon import scen, env

TECHNIQUE = "offline oracle over recorded trajectories and cumulative curves: closed-form kinematic-wave solutions (free flow, bottlenecks, jams, shocks, start waves, merges, diverges, signals) and Newell's cumulative-curve inequalities on every link and step of random networks"
LEVEL_NOTE = "Exploration of sampled parameters; every vehicle, link and step of a run is compared with the closed-form value. Tolerances are numbers of steps and platoons (discretisation), calibrated on the unchanged code and independent of the length of the run."
ASSUME = ["discretisation: a platoon is the unit of flow and a step the unit of time; tolerances are a few of them, at merges and diverges more (random sharing)"]
RULE = ("Parameters by seed: free-flow speed 10-30 m/s, 1-3 lanes, jam density, reaction time 0.5-2 s, platoons of 1-10, link lengths of 6-30 steps, kinds of bottlenecks (capacity in/out, node, lanes, speed), demand levels up to and above capacity; and random networks for the inequalities. "
        "Non-trivial: vehicles travelled; distinct by the hash of the parameters and curves.")
REQUIRED = ["free-trips", "free-links", "bottleneck-cap_in", "bottleneck-cap_out", "bottleneck-node", "bottleneck-fd", "bottleneck-slow", "filled-queues", "delays", "jams", "start-waves", "shocks", "merges-saturated", "merges-one-free", "diverges-fifo", "signals",
            "self-limited", "capacity-windows", "newell-steps", "random-networks", "cpp-runs", "platoon-refinements"]
BUDGET = dict(quick=40, thorough=500)
KINDS = ["free", "neck", "neck", "neck", "jam", "shock", "merge", "diverge", "signal", "net", "net", "refine"]


def jobs(tier, seed):
    n = 1100 if tier == "quick" else 15000
    base = seed * 1_000_003 + 24 * 20_011
    out = []
    for i in range(n):
        cpp = (i // len(KINDS) + i) % 2 == 0
        out.append(dict(seed=(base + i) % (1 << 31), cpp=cpp, so="plain" if cpp else None, kind=KINDS[i % len(KINDS)], timeout=200))
    return out


class P:
    """one homogeneous road type"""

    def __init__(s, r, dn=None, ln=None):
        s.dn = dn or r.choice([1, 1, 2, 5, 10])
        s.tau = r.choice([.5, 1, 1, 1, 1.5, 2])
        s.dt = s.dn * s.tau
        s.u = r.choice([10, 13.9, 15, 20, 25, 30])
        s.ln = ln or r.choice([1, 1, 2, 3])
        s.kj = r.choice([.1, .14, .2, .25]) * s.ln
        s.fd()

    def fd(s):
        s.w = s.ln / s.tau / s.kj
        s.q = s.u * s.w * s.kj / (s.u + s.w)

    def copy(s, **kw):
        x = P.__new__(P)
        x.__dict__.update(s.__dict__)
        x.__dict__.update(kw)
        x.fd()
        return x

    def kw(s):
        return dict(free_flow_speed=s.u, jam_density=s.kj, number_of_lanes=s.ln)

    def __repr__(s):
        return "u=%g lanes=%d kj=%g tau=%g platoon=%d" % (s.u, s.ln, s.kj, s.tau, s.dn)


class Mon:
    def __init__(s, job):
        s.job, s.r = job, random.Random(job["seed"] * 17 + 3)
        s.v, s.c, s.m = [], defaultdict(int), []
        s.h = hashlib.blake2b(digest_size=8)
        s.moved = False

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg))

    def world(s, p, tmax, soft=False):
        s.tmax = tmax
        return env.make_world(s.job["cpp"], name="", deltan=p.dn, reaction_time=p.tau, tmax=tmax, print_mode=0, save_mode=0, show_mode=0,
                              random_seed=s.r.randrange(1 << 30), hard_deterministic_mode=s.r.random() < .3 and not soft, duo_noise=0.01)

    def near(s, name, x, th, lo, hi, unit, what):
        """x within [th + lo * unit, th + hi * unit]"""
        z = (x - th) / unit
        s.m.append((name, z, lo, hi))
        if not lo <= z <= hi:
            s.bad(name, f"{what}: {x:.6g}, theory {th:.6g} ({z:+.2f} units of {unit:.4g}, allowed {lo} to {hi})")

    # ---- inequalities on every link and step
    def newell(s, W, dn, dt):
        for l in W.LINKS:
            A, D = np.array(l.cum_arrival, float), np.array(l.cum_departure, float)
            n = len(A)
            if A[-1] <= 0:
                continue
            s.moved = True
            s.h.update(A.tobytes())
            s.h.update(D.tobytes())
            ln, kj, L, u = l.number_of_lanes, l.jam_density, l.length, l.free_flow_speed
            tau = dt / dn
            w = ln / tau / kj
            q = u * w * kj / (u + w)
            s.c["newell-steps"] += n
            T = np.arange(n)
            # nobody is faster than free flow
            k = int(L / u / dt)
            sh = np.clip(T - k + 2, 0, n - 1)
            z = (D - A[sh]).max() / dn
            s.m.append(("faster-than-free-flow", z, -9e9, 1e-9))
            if z > 1e-9:
                s.bad("faster-than-free-flow", f"{l.name}: {z} platoons left before they could have traversed it at {u} m/s")
            # no more vehicles than the backward wave admits
            k = int(L / w / dt)
            Db = np.where(T - k >= 0, D[np.clip(T - k, 0, n - 1)], 0)
            z = (A - Db - kj * L).max() / dn / ln
            s.m.append(("faster-than-backward-wave", z, -9e9, 1.4))
            if z > 1.4:
                s.bad("faster-than-backward-wave", f"{l.name}: {z:.2f} platoons per lane more than the backward wave of {w:.3g} m/s admits")
            for nm, X, cap in (("inflow", A, q), ("outflow", D, q)):
                # in any interval at most q * length (+ a platoon per lane and its rounding)
                y = X - cap * dt * T
                z = (y - np.minimum.accumulate(y)).max() / dn / ln
                s.c["capacity-windows"] += 1
                hi = 2.1 if nm == "outflow" else 2.1
                s.m.append(("faster-than-capacity-" + nm, z, -9e9, hi))
                if z > hi:
                    s.bad("faster-than-capacity-" + nm, f"{l.name}: the {nm} exceeds the capacity {cap:.4g} veh/s of its fundamental diagram by {z:.2f} platoons per lane in some interval")


def trips(W):
    for v in W.VEHICLES.values():
        if v.state == "end":
            rt, ts = v.traveled_route()
            yield v, rt, [float(x) for x in ts]


# ------------------------------------------------------------------ scenarios
def free(M):
    r = M.r
    p = P(r)
    m = r.randint(1, 6)
    ps = [p.copy(u=r.choice([10, 15, 20, 25, 30]), ln=r.choice([1, 2]), kj=p.kj / p.ln) for _ in range(m)]
    for x in ps:
        x.kj *= x.ln
        x.fd()
    Ls = [r.uniform(3, 20) * x.u * p.dt for x in ps]
    cap = min(x.q for x in ps)
    T = sum(L / x.u for L, x in zip(Ls, ps))
    W = M.world(p, T + 150 * p.dt)
    for i in range(m + 1):
        W.addNode(f"n{i}", i, 0)
    for i in range(m):
        W.addLink(f"l{i}", f"n{i}", f"n{i + 1}", Ls[i], **ps[i].kw())
    W.adddemand("n0", f"n{m}", r.uniform(0, 20), 120 * p.dt, r.uniform(.05, .45) * cap)
    W.exec_simulation()
    n = 0
    for v, rt, ts in trips(W):
        n += 1
        M.c["free-trips"] += 1
        M.near("free-trip-time", ts[-1] - ts[0], T, -1.0001, .0001 + (abs(T / p.dt - round(T / p.dt)) < 1e-5), p.dt, f"trip over {m} links ({p})")
        for k in range(len(rt.links)):
            M.c["free-links"] += 1
            M.near("free-link-time", ts[k + 1] - ts[k], Ls[k] / ps[k].u, -2 - 1e-9, 1 + 1e-9, p.dt, f"link of {Ls[k]:.4g} m ({ps[k]})")
    if n != len(W.VEHICLES):
        M.bad("free-trip-time", f"{len(W.VEHICLES) - n} of {len(W.VEHICLES)} vehicles did not arrive in free traffic")
    M.newell(W, p.dn, p.dt)


def neck_world(M, p, kind, beta, f, L, tdem, tmax):
    r = M.r
    Q = beta * p.q
    p2 = p.copy()
    if kind == "fd":
        k0 = p.kj / p.ln
        p2 = p.copy(kj=k0 * r.uniform(.3, .9) if p.ln == 1 else k0, ln=1)
        Q = p2.q
    if kind == "slow":
        p2 = p.copy(u=p.u * r.uniform(.2, .7))
        Q = p2.q
    if f is None:
        lo = Q * 1.15
        f = r.uniform(min(lo, .97 * p.q), .98 * p.q)
    W = M.world(p, tmax)
    W.addNode("o", 0, 0)
    W.addNode("a", 1, 0, **(dict(flow_capacity=Q, number_of_lanes=p.ln) if kind == "node" else {}))
    W.addNode("d", 2, 0)
    W.addLink("l1", "o", "a", L, **p.kw(), **(dict(capacity_out=Q) if kind == "cap_out" else {}))
    W.addLink("l2", "a", "d", L, **p2.kw(), **(dict(capacity_in=Q) if kind == "cap_in" else {}))
    W.adddemand("o", "d", 0, tdem, f)
    return W, Q, f, p2


def neck(M):
    r = M.r
    p = P(r)
    kind = r.choice(["cap_in", "cap_out", "node", "fd", "slow"])
    L = r.uniform(8, 25) * p.u * p.dt
    tdem = 350 * p.dt
    W, Q, f, p2 = neck_world(M, p, kind, r.uniform(.25, .85), None, L, tdem, 2600 * p.dt)
    if Q > .93 * p.q:
        return
    W.exec_simulation()
    l1, l2 = W.get_link("l1"), W.get_link("l2")
    A, D = np.array(l1.cum_arrival), np.array(l1.cum_departure)
    what = f"{kind} bottleneck of {Q:.4g} veh/s, demand {f:.4g}, {p}"
    M.c["bottleneck-" + kind] += 1
    # discharge at the bottleneck's capacity while the demand lasts
    a = int(np.argmax(D > 0)) + int(25 + 6 / max(f / Q - 1, .05))
    b = 340
    if b - a > 60:
        M.near("discharge", D[b] - D[a], Q * (b - a) * p.dt, -1.8, 1.8, p.dn * max(1, p.ln * .6), f"vehicles discharged in {b - a} steps, {what}")
    # the queue on a filled link has the density of the congested branch
    kc = p.kj - Q / p.w
    s_ = (Q - f) / (kc - f / p.u)
    fill = L / p.u + L / -s_ + 30 * p.dt
    if fill < 300 * p.dt:
        M.c["filled-queues"] += 1
        k0 = int(fill / p.dt)
        N = (A - D)[k0:341]
        M.near("queue-density", float(N.mean()), kc * L, -.8, 2, p.dn * p.ln, f"vehicles on the queued link, {what}")
    # everybody served: the total delay is that of the queue with these arrivals and this service rate
    vs = list(W.VEHICLES.values())
    if all(v.state == "end" for v in vs):
        M.c["delays"] += 1
        n = len(vs) * p.dn
        th = .5 * (f - Q) * f / Q * tdem ** 2 * (n / (f * tdem)) ** 2 / n
        x = float(np.mean([v.travel_time for v in vs])) - L / p.u - L / p2.u
        M.near("mean-delay", x, th, -4.5, 3, p.dt * max(1, p.q / Q / 1.5), f"mean delay, {what}")
    # free traffic after the bottleneck
    for v, rt, ts in trips(W):
        if len(ts) == 3 and kind not in ("fd", "slow"):
            M.near("after-bottleneck", ts[2] - ts[1], L / p2.u, -2 - 1e-9, 1 + 1e-9, p.dt, f"link after the bottleneck, {what}")
    M.newell(W, p.dn, p.dt)


def jam(M):
    """a closed link fills up to the jam density; when it is opened, the start wave runs backward"""
    r = M.r
    p = P(r)
    L = r.uniform(8, 25) * p.u * p.dt
    tfill = L * p.kj / p.q + L / p.u
    T0 = int((tfill * 1.3 + 30 * p.dt) / p.dt)
    W = M.world(p, (T0 + 300) * p.dt)
    for n in "oad":
        W.addNode(n, 0, 0)
    W.addLink("l1", "o", "a", L, capacity_out=0, **p.kw())
    W.addLink("l2", "a", "d", L * 2, **p.kw())
    W.adddemand("o", "d", 0, (T0 + 250) * p.dt, p.q)
    W.exec_simulation(until_t=(T0 - 1) * p.dt)
    l1 = W.get_link("l1")
    M.c["jams"] += 1
    x = float(l1.num_vehicles)
    M.near("jam-density", x, p.kj * L, -1.01, 1.01, p.dn * p.ln, f"vehicles on a closed link of {L:.5g} m, {p}")
    l1.capacity_out = 10e10
    W.exec_simulation()
    # departures: at the capacity, and every vehicle starts when the wave arrives
    D = np.array(l1.cum_departure)
    a, b = T0 + 2, T0 + 120
    M.c["self-limited"] += 1
    M.near("jam-discharge", D[b] - D[a], p.q * (b - a) * p.dt, -1.6, 1.6, p.dn * p.ln, f"vehicles discharged from a jam in {b - a} steps, {p}")
    for v in W.VEHICLES.values():
        lx = [(t, float(x)) for t, x, l in zip(v.log_t, v.log_x, v.log_link) if l == l1 or l == "l1"]
        at = dict(lx)
        t0 = T0 * p.dt
        x0 = at.get(t0, at.get((T0 - 1) * p.dt))
        if x0 is None:
            continue
        start = next((t for t, x in lx if t >= t0 and x > x0 + 1e-6), None)
        if start is None:
            if L - x0 > 1e-6:
                continue
            start = next((t for t, l in zip(v.log_t, v.log_link) if t >= t0 and not (l == l1 or l == "l1")), None)
            if start is None:
                continue
        M.c["start-waves"] += 1
        M.near("start-wave", (start - t0), (L - x0) / p.w, -1.01, 1.01, p.dt, f"start of a vehicle {L - x0:.5g} m upstream, wave speed {p.w:.4g}, {p}")
    M.newell(W, p.dn, p.dt)


def shock(M):
    """the tail of the queue moves at the speed of the shock"""
    r = M.r
    p = P(r)
    L = r.uniform(15, 40) * p.u * p.dt
    beta = r.uniform(.2, .6)
    f = r.uniform(beta + .2, .9) * p.q
    W, Q, f, p2 = neck_world(M, p, r.choice(["cap_in", "cap_out", "node"]), beta, f, L, 900 * p.dt, 900 * p.dt)
    kc = p.kj - Q / p.w
    vc = Q / kc
    sp = (f - Q) / (kc - f / p.u)
    W.exec_simulation()
    pts = []
    for v in W.VEHICLES.values():
        z = [(float(t), float(x)) for t, x, l in zip(v.log_t, v.log_x, v.log_link) if str(getattr(l, "name", l)) == "l1"]
        for (t0, x0), (t1, x1) in zip(z, z[4:]):
            if x1 < L * .85 and (x1 - x0) / (t1 - t0) < (p.u + vc) / 2:
                pts.append((t0, x0))
                break
    pts = [q for q in pts if .1 * L < q[1] < .8 * L]
    if len(pts) >= 12:
        M.c["shocks"] += 1
        t, x = np.array(pts).T
        k = np.polyfit(x, t, 1)[0]
        # time the tail needs for the length, in headways and steps
        span = x.max() - x.min()
        M.near("shock-speed", -k * span, span / sp, -1, 1, 4 * p.dt + .06 * span / sp, f"time of the queue tail for {span:.4g} m, bottleneck {Q:.4g}, demand {f:.4g}, {p}")
    M.newell(W, p.dn, p.dt)


def merge(M):
    r = M.r
    p = P(r, ln=r.choice([1, 1, 2]))
    pr = [r.choice([.5, 1, 1, 2, 3]), r.choice([.5, 1, 2])]
    L = r.uniform(8, 20) * p.u * p.dt
    beta = r.uniform(.4, .95)
    Q = beta * p.q
    sat = r.random() < .6
    sh = [x / sum(pr) for x in pr]
    if sat:
        f = [min(.95 * p.q, s * Q * r.uniform(1.3, 2.5)) for s in sh]
        if any(a < s * Q * 1.15 for a, s in zip(f, sh)):
            return
    else:
        k = r.randrange(2)
        f = [0, 0]
        f[k] = sh[k] * Q * r.uniform(.2, .75)
        f[1 - k] = .95 * p.q
        if f[1 - k] < (Q - f[k]) * 1.1:
            return
    W = M.world(p, 700 * p.dt, soft=True)        # (the hard deterministic mode serves one of the links only)
    for n in ("o1", "o2", "a", "d"):
        W.addNode(n, 0, 0)
    for i in (0, 1):
        W.addLink(f"l{i + 1}", f"o{i + 1}", "a", L, merge_priority=pr[i], **p.kw())
    W.addLink("l3", "a", "d", L, capacity_in=Q, **p.kw())
    for i in (0, 1):
        W.adddemand(f"o{i + 1}", "d", 0, 700 * p.dt, f[i])
    W.exec_simulation()
    D = [np.array(W.get_link(f"l{i + 1}").cum_departure) for i in (0, 1)]
    a, b = 200, 690
    tot = sum(d[b] - d[a] for d in D)
    what = f"priorities {pr}, demands {f[0]:.4g} and {f[1]:.4g}, capacity {Q:.4g}, {p}"
    M.near("merge-discharge", tot, Q * (b - a) * p.dt, -1.9, 1.9, p.dn * p.ln, f"vehicles through a congested merge, {what}")
    n = tot / p.dn
    if sat:
        M.c["merges-saturated"] += 1
        sd = math.sqrt(n * sh[0] * sh[1])
        M.near("merge-share", (D[0][b] - D[0][a]) / p.dn, n * sh[0], -1, 1, 5 * sd + 3, f"platoons of link 1 of {n:.0f}, {what}")
    else:
        M.c["merges-one-free"] += 1
        M.near("merge-free-share", (D[k][b] - D[k][a]) / p.dn, f[k] * (b - a) * p.dt / p.dn, -1, 1, 4, f"platoons of the link that demands less than its share, {what}")
    M.newell(W, p.dn, p.dt)


def diverge(M):
    """first in first out: the blocked branch holds the other one back"""
    r = M.r
    p = P(r)
    if p.ln > 1:        # one lane: strictly first in first out
        p = p.copy(ln=1, kj=p.kj / p.ln)
    s_ = r.uniform(.25, .75)
    f = r.uniform(.7, .95) * p.q
    Qb = f * s_ * r.uniform(.3, .75)
    L = r.uniform(8, 20) * p.u * p.dt
    W = M.world(p, 700 * p.dt)
    for n in ("o", "a", "d1", "d2"):
        W.addNode(n, 0, 0)
    W.addLink("l1", "o", "a", L, **p.kw())
    W.addLink("b1", "a", "d1", L, capacity_in=Qb, **p.kw())
    W.addLink("b2", "a", "d2", L, **p.kw())
    W.adddemand("o", "d1", 0, 700 * p.dt, f * s_)
    W.adddemand("o", "d2", 0, 700 * p.dt, f * (1 - s_))
    W.exec_simulation()
    D1, D2 = np.array(W.get_link("b1").cum_arrival), np.array(W.get_link("b2").cum_arrival)
    a, b = 250, 690
    M.c["diverges-fifo"] += 1
    what = f"share {s_:.3g} to the blocked branch, {p}"
    M.near("diverge-blocked", D1[b] - D1[a], Qb * (b - a) * p.dt, -1.6, 1.6, p.dn, f"vehicles into the blocked branch of {Qb:.4g} veh/s, {what}")
    M.near("diverge-fifo", D2[b] - D2[a], Qb * (1 - s_) / s_ * (b - a) * p.dt, -1, 1, p.dn * (2.2 + 2.2 * (1 - s_) / s_), f"vehicles into the free branch behind the blocked ones, {what}")
    M.newell(W, p.dn, p.dt)


def signal(M):
    r = M.r
    p = P(r)
    per = p.dn * p.ln / p.q / p.dt          # steps per platoon and lane
    g, rd = r.randint(8, 30), r.randint(5, 30)
    L = r.uniform(10, 25) * p.u * p.dt
    cyc = 12
    W = M.world(p, (g + rd) * p.dt * (cyc + 4))
    W.addNode("o", 0, 0)
    W.addNode("a", 0, 0, signal=[g * p.dt, rd * p.dt])
    W.addNode("d", 0, 0)
    W.addLink("l1", "o", "a", L, signal_group=[0], **p.kw())
    W.addLink("l2", "a", "d", L, **p.kw())
    W.adddemand("o", "d", 0, (g + rd) * p.dt * (cyc + 4), .97 * p.q)
    W.exec_simulation()
    D = np.array(W.get_link("l1").cum_departure)
    C = g + rd
    a = C * 4 + g + rd // 2
    b = a + C * cyc
    b = min(b, len(D) - 1)
    k = (b - a) // C
    if k >= 4 and g * rd:
        M.c["signals"] += 1
        M.near("signal-throughput", (D[a + k * C] - D[a]) / k, p.q * g * p.dt, -1.6, 1.6, p.dn * p.ln, f"vehicles per cycle of {g} green and {rd} red steps, {p}")
    M.newell(W, p.dn, p.dt)


def refine(M):
    """the same road with smaller platoons: the same totals"""
    r = M.r
    p0 = P(r, dn=1)
    kind = r.choice(["cap_in", "cap_out", "node", "slow"])
    L = r.uniform(80, 200) * p0.u * p0.tau
    beta = r.uniform(.3, .8)
    f = r.uniform(beta + .1, .95) * p0.q
    tdem = r.uniform(250, 500) * p0.tau
    th = None
    for dn in (1, 2, 5, 10):
        p = p0.copy(dn=dn, dt=dn * p0.tau)
        if kind == "slow":
            # the same slow speed for all platoon sizes
            st = M.r.getstate()
            W, Q, f_, p2 = neck_world(M, p, kind, beta, f, L, tdem, tdem * 8)
            M.r.setstate(st)
        else:
            W, Q, f_, p2 = neck_world(M, p, kind, beta, f, L, tdem, tdem * 8)
        if f < Q * 1.05:
            return
        W.exec_simulation()
        vs = list(W.VEHICLES.values())
        if not vs or any(v.state != "end" for v in vs):
            return
        n = len(vs) * dn
        M.c["platoon-refinements"] += 1
        M.near("refined-volume", n, f * tdem, -1.01 - f * p.tau, .01, dn, f"vehicles generated, {p}")
        th = .5 * (f - Q) * f / Q * (n / f) ** 2 / n + L / p.u + L / p2.u
        x = float(np.mean([v.travel_time for v in vs]))
        M.near("refined-travel-time", x, th, -4.5, 3, p.dt * max(1, p.q / Q / 1.5), f"mean travel time with platoons of {dn}, {kind} bottleneck of {Q:.4g}, demand {f:.4g}, {p}")
        M.near("refined-analyzer", float(W.analyzer.total_travel_time), x * n, -1, 1, 1e-6 * max(1, x * n), "total travel time of the analyzer")
        M.newell(W, p.dn, p.dt)


def net(M):
    r = M.r
    spec = scen.generate(M.job["seed"], extreme=False, max_platoons=120, load=r.choice([1, 2.5]), no_closed=r.random() < .7)
    spec["events"] = []
    W = scen.build_world(spec, M.job["cpp"])
    if any(l.length < 2 * l.free_flow_speed * W.DELTAT for l in W.LINKS):
        M.c["short-links-skipped"] += 1
        return
    W.exec_simulation()
    M.c["random-networks"] += 1
    M.newell(W, W.DELTAN, W.DELTAT)


def run(job):
    M = Mon(job)
    with env.quiet():
        globals()[job["kind"]](M)
    if job["cpp"]:
        M.c["cpp-runs"] += 1
    M.c["comparisons"] = len(M.m)
    out = dict(viol=M.v, count={k: int(v) for k, v in M.c.items()})
    if M.moved:
        out["sig"] = M.h.hexdigest()
    if job["seed"] % 101 == 0:
        ext = {}
        for n, z, lo, hi in M.m:
            a = ext.setdefault(n, [z, z, lo, hi])
            a[0], a[1] = min(a[0], z), max(a[1], z)
        out["sample"] = dict(seed=job["seed"], kind=job["kind"], engine="cpp" if job["cpp"] else "python", residuals={k: [round(float(x), 3) for x in v] for k, v in ext.items()})
    if job.get("measures"):
        out["measures"] = M.m
    return out
