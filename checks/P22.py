import math, random
import numpy as np
from vmon import scen, stepmon, env, lawcheck
ID = "P22"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor recording the positions of all vehicles at every step; offline evaluation of Edie's definitions on these trajectories, compared cell by cell with the analyzer's traffic states and MFD, mid-run and at the end"
LEVEL_NOTE = "Exploration: every cell of every link of the executions generated is compared."
ASSUME = ["a movement of one step is attributed to the time bin in which it starts, and trajectories are completed at both link ends at the link's current free-flow speed, as the code documents",
          "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ["cell", "cell-occupied", "link-totals", "mfd-bin", "mfd-subset", "table-row", "mid-run", "custom-cell", "scenarios-python", "scenarios-cpp"]


def jobs(tier, seed):
    X = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])
    P = [(14, False, X), (14, True, X), (60, False, {}), (20, False, dict(events=6)), (25, False, dict(load=2.5)), (20, False, dict(topo="corridor")), (15, False, dict(topo="grid")),
         (80, True, {}), (30, True, dict(events=6)), (30, True, dict(load=2.5)), (30, True, dict(topo="corridor")), (20, True, dict(topo="grid"))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def trajectories(m, W):
    """per link: list of (vehicle, [(t, x), ...]) as observed, completed at the link ends"""
    out = {l: [] for l in m.links}
    u = {l: float(s.obj.u) for l, s in m.links.items()}
    for nm in m.vehs:
        last = None
        for row in m.rows[nm]:
            if row[2] is None:
                continue
            if row[2] != last:
                out[row[2]].append((nm, []))
                last = row[2]
            out[row[2]][-1][1].append((row[0] * m.dt, row[3]))
    for l, s in m.links.items():
        for nm, p in out[l]:
            t0, x0 = p[0]
            if x0 != 0 and x0 / u[l] > m.dt * 0.01:
                p.insert(0, (t0 - x0 / u[l], 0.0))
            t1, x1 = p[-1]
            if s.length - u[l] * m.dt <= x1 < s.length and (s.length - x1) / u[l] > m.dt * 0.01:
                p.append((t1 + (s.length - x1) / u[l], s.length))
    return out


def edie(traj, nt, nx, dt, dx, length):
    """time and distance in each cell; also the bins that rounding may swap"""
    tn, dn, amb = np.zeros((nt, nx)), np.zeros((nt, nx)), np.zeros((nt, nx))
    fuzzy = set()
    tot_t = tot_d = 0.0
    for nm, p in traj:
        for (t0, x0), (t1, x1) in zip(p, p[1:]):
            i = math.floor(t0 / dt)
            q = t0 / dt
            if abs(q - round(q)) < 1e-9 and q != round(q):
                fuzzy.update((round(q) - 1, round(q)))
            if not 0 <= i < nt:
                continue
            tt, dd = t1 - t0, x1 - x0
            j = int(x0 // dx)
            if dd <= 0:
                b = round(x0 / dx)
                if x0 == length and abs(nx * dx - length) <= 1e-9 * length:
                    # standing at the stop line: beyond the last cell, up to rounding of the cell size
                    j = min(j, nx)
                    if j < nx:
                        amb[i, j] += tt
                elif b and abs(x0 - b * dx) < 1e-9 * dx:          # stopped on a cell boundary: either side
                    for z in (b - 1, b):
                        if z < nx:
                            amb[i, z] += tt
                if j < nx:
                    tn[i, j] += tt
                    tot_t += tt
                continue
            pos = x0
            while pos < x1 and j < nx:
                nxt = min(x1, (j + 1) * dx)
                if nxt > pos:
                    f = (nxt - pos) / dd
                    tn[i, j] += tt * f
                    dn[i, j] += dd * f
                    tot_t += tt * f
                    tot_d += dd * f
                    pos = nxt
                j += 1
    return tn, dn, amb, fuzzy, tot_t, tot_d


def check(m, W, cpp, viol, c, r, final):
    a = W.analyzer
    where = "at the end" if final else f"after step {m.T}"

    def bad(rule, msg):
        if len(viol) < 8:
            viol.append((rule, f"{where}: {msg}"))

    def cnt(k, i=1):
        c[k] = c.get(k, 0) + i
    if m.ambiguous or m.row_alt:
        return
    a.compute_edie_state()
    traj = trajectories(m, W)
    E = W.EULAR_DT
    nt = int(W.TMAX / E)
    exp, fz = {}, {}
    for l, s in m.links.items():
        o = s.obj
        dx, dt = o.edie_dx, o.edie_dt
        spec = next(z for z in m.spec["links"] if z["name"] == l)
        want_dx = spec["eular_dx"] if spec.get("eular_dx") is not None else max(s.length / 10, m.u0[l] * m.dt)
        if abs(dx - want_dx) > 1e-9 * want_dx or dt != E:
            bad("cell-size", f"link {l}: cells of {dx} m x {dt} s, configured {want_dx} m x {E} s")
            continue
        if spec.get("eular_dx") is not None:
            cnt("custom-cell")
        nx = int(s.length / dx)
        tn, dn, amb, fuzzy, tt, dd = edie(traj[l], nt, nx, dt, dx, s.length)
        tn, dn, amb, tt, dd = tn * m.deltan, dn * m.deltan, amb * m.deltan, tt * m.deltan, dd * m.deltan
        exp[l], fz[l] = (tn, dn, nx), fuzzy or bool(amb[:, -1:].any())
        k, q, v = np.array(o.k_mat), np.array(o.q_mat), np.array(o.v_mat)
        if k.shape != (nt, nx) or q.shape != (nt, nx) or v.shape != (nt, nx):
            bad("shape", f"link {l}: state arrays {k.shape}, {q.shape}, {v.shape}, expected {(nt, nx)}")
            continue
        if not nx or not nt:
            continue
        area = dx * dt
        cnt("cell", nt * nx)
        cnt("cell-occupied", int((tn > 0).sum()))
        if (k < -1e-12).any() or (q < -1e-12).any() or not np.isfinite(k).all() or not np.isfinite(q).all() or not np.isfinite(v).all() or (v < -1e-12).any():
            bad("sign", f"link {l}: negative or non-finite traffic state")
            continue
        tol_t, tol_d = 1e-6 * (1 + tn.max()), 1e-6 * (1 + dn.max())
        cnt("link-totals")
        if not fuzzy and (abs(k.sum() * area - tt) > 1e-6 * (1 + tt) + amb[:, -1].sum() or abs(q.sum() * area - dd) > 1e-6 * (1 + dd)):
            bad("totals", f"link {l}: sum of density*area is {k.sum()*area}, total time spent {tt}; sum of flow*area is {q.sum()*area}, total distance {dd}")
        et, ed = np.abs(k * area - tn) - amb, np.abs(q * area - dn)
        if fuzzy:
            rows = [i for i in range(nt) if i not in fuzzy]
            et, ed = et[rows], ed[rows]
            cnt("fuzzy-bin", len(fuzzy))
        if (et > tol_t).any() or (ed > tol_d).any():
            i, j = np.unravel_index(np.argmax(et + ed), et.shape)
            bad("cell", f"link {l}, cell {(int(i), int(j))}: time spent {float((k*area)[i, j])}, distance {float((q*area)[i, j])}; trajectories give {float(tn[i, j])}, {float(dn[i, j])}")
            continue
        ref = np.where(k * area > 1e-9, q / np.where(k * area > 1e-9, k, 1), np.where(k > 0, v, o.u))
        if (np.abs(ref - v) > 1e-6 * (1 + np.abs(ref))).any():
            i, j = np.unravel_index(np.argmax(np.abs(ref - v)), v.shape)
            bad("speed", f"link {l}, cell {(int(i), int(j))}: speed {float(v[i, j])}, flow/density {float(ref[i, j])}")
    if viol:
        return
    # table
    df = a.link_traffic_state_to_pandas()
    n = sum(nt * exp[l][2] for l in exp)
    cnt("table-row", n)
    if len(df) != n:
        bad("table", f"link_traffic_state_to_pandas has {len(df)} rows, {n} cells exist")
    else:
        pos = 0
        for l in m.links:
            o = m.links[l].obj
            nx = exp[l][2]
            g = df.iloc[pos:pos + nt * nx]
            pos += nt * nx
            if not nx or not nt:
                continue
            ii, jj = np.divmod(np.arange(nt * nx), nx)
            if set(g["link"]) != {l} or not np.allclose(g["t"], ii * E) or not np.allclose(g["x"], jj * o.edie_dx) or not np.allclose(g["delta_t"], E) or not np.allclose(g["delta_x"], o.edie_dx) \
                    or not np.array_equal(np.array(g["k"]), np.array(o.k_mat).ravel()) or not np.array_equal(np.array(g["q"]), np.array(o.q_mat).ravel()) or not np.array_equal(np.array(g["v"]), np.array(o.v_mat).ravel()):
                bad("table", f"rows of link {l} in link_traffic_state_to_pandas differ from its cells")
                break
    # MFD
    for sub in (None, [l for l in m.links if r.random() < 0.5] or [next(iter(m.links))]):
        ls = list(m.links) if sub is None else sub
        if any(fz[l] for l in ls):
            continue
        if sub is not None:
            cnt("mfd-subset")
        arg = None if sub is None else [W.get_link(l) if r.random() < 0.5 else l for l in sub]
        df = a.mfd_to_pandas(arg) if sub is not None else a.mfd_to_pandas()
        area = sum(exp[l][2] * m.links[l].obj.edie_dx for l in ls) * E
        if len(df) != nt or not np.allclose(df["t"], np.arange(nt) * E):
            bad("mfd", f"{len(df)} rows with times {list(df['t'])[:4]}, {nt} bins of {E} s")
            continue
        if area <= 0:
            continue
        cnt("mfd-bin", nt)
        for i in range(nt):
            K = sum(exp[l][0][i].sum() for l in ls) / area
            Q = sum(exp[l][1][i].sum() for l in ls) / area
            if abs(df["network_k"][i] - K) > 1e-6 * (1e-3 + K) or abs(df["network_q"][i] - Q) > 1e-6 * (1e-3 + Q):
                bad("mfd", f"bin {i} over {len(ls)} of {len(m.links)} links: density {float(df['network_k'][i])}, flow {float(df['network_q'][i])}; trajectories give {K}, {Q}")
                break
    if not final:
        cnt("mid-run")


def run(job):
    spec = job.get("spec") or scen.generate(job["seed"], **job["opts"])
    cpp = job["cpp"]
    r = random.Random(job["seed"] ^ 0xA22)
    viol, c = [], {}
    w = spec["world"]
    step = w["deltan"] * w["reaction_time"]
    steps = int(w["tmax"] / step)
    reads = {r.randrange(steps) for _ in range(r.choice([0, 0, 1, 2]))}
    w["vehicle_logging_timestep_interval"] = 1
    w["eular_dt"] = r.choice([step, 2 * step, 5 * step, 120, w["tmax"] / 4, 2.5 * step])
    for l in spec["links"]:
        if r.random() < 0.2:
            l["eular_dx"] = r.choice([l["length"], l["length"] / 4, l["length"] / 7, 33.0 if l["length"] > 33 else l["length"]])

    def mid(m):
        if not m.dead and m.T in reads:
            check(m, W, cpp, viol, c, r, False)

    def setup(m):
        m.keep_rows = True
        m.u0 = {l["name"]: l.get("free_flow_speed", 20) for l in spec["links"]}
    with env.quiet(), np.errstate(all="ignore"):
        W = scen.build_world(spec, cpp=cpp)
        m = stepmon.run(spec, cpp, W=W, mid=mid, setup=setup)
        if not m.dead:
            check(m, W, cpp, viol, c, r, True)
    viol += [(rule, msg) for p, rule, msg in m.viol if p == ID]
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if cpp else "python")] = 1
    res = dict(viol=viol, count=c)
    if m.count["transferred"] or m.count["generated"]:
        res["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], steps=m.T + 1, occupied_cells=c.get("cell-occupied", 0))
    return res
