import hashlib
from collections import Counter, defaultdict
from vmon import lawcheck, scen, stepmon, env
ID = "P23"
RULE = lawcheck.RULE
TECHNIQUE = "online step monitor with shadow parameters under injected run-time control events, call recorders on every user function, and digests of earlier records around every change"
LEVEL_NOTE = "Exploration: after every control event the full parameter set of every link and node and the motion law are judged at each later step; records made before an event are digested before and after it. User functions exist in the Python engine only."
ASSUME = ["control events are applied at the end of a step (World.user_function, or between one-step exec_simulation calls)", "the extension is compiled by the check from the current tree with g++ -O1 instead of -O3"]
REQUIRED = ['params', 'control-events', 'applied-values', 'group-assignments', 'user-function-calls', 'record-digests', 'scenarios-python', 'scenarios-cpp', 'motion', 'crossing']
KINDS = ["u", "u", "kappa", "kappa", "cap_out", "cap_in", "node_cap", "signal", "phase", "prio", "sg", "toll"]
MIX = [("corridor", 1), ("merge", 2), ("cross", 3), ("grid", 2), ("tworoute", 1), ("random", 2)]


def jobs(tier, seed):
    E = dict(events=10, event_kinds=KINDS, mix=MIX)
    P = [(110, False, dict(E)), (40, False, dict(E, load=2.5)), (40, False, dict(E, hard=True)), (30, False, dict(events=6, event_kinds=["u", "kappa"], topo="corridor")),
         (110, True, dict(E)), (40, True, dict(E, load=2.5)), (40, True, dict(E, hard=True)), (30, True, dict(events=6, event_kinds=["u", "kappa"], topo="corridor"))]
    return lawcheck.jobs_from(P, tier, seed, ID)


def records(W, T, cpp):
    """digest of what was recorded up to and including step T"""
    h = hashlib.blake2b(digest_size=8)
    for l in W.LINKS:
        for a in (l.cum_arrival, l.cum_departure, l.traveltime_instant):
            h.update(repr([float(x) for x in list(a)[:T + 1]]).encode())
    for v in W.VEHICLES.values():
        h.update(repr((list(v.log_t), list(v.log_state), [float(x) for x in v.log_x], [float(x) for x in v.log_v], [getattr(x, "name", x) for x in v.log_link], list(v.log_lane))).encode())
    for n in W.NODES:
        h.update(repr(list(getattr(n, "signal_log", []))[:T + 1]).encode())
    return h.hexdigest()


def full_params(W):
    """everything a control event may set, on every link and node"""
    d = {}
    for l in W.LINKS:
        d[l.name] = dict(u=float(l.u), kappa=float(l.kappa), w=float(l.w), capacity=float(l.capacity), delta=float(l.delta), dpl=float(l.delta_per_lane), cin=float(l.capacity_in),
                         cout=float(l.capacity_out), prio=float(l.merge_priority), sg=list(l.signal_group), lanes=int(l.number_of_lanes), length=float(l.length), tau=float(l.tau) if hasattr(l, "tau") else None,
                         q_star=float(l.q_star), k_star=float(l.k_star), ffs=float(l.free_flow_speed), jam=float(l.jam_density), tolls=[float(l.get_toll(t)) for t in (0, 100, 500, 1500)])
    for n in W.NODES:
        d["node:" + n.name] = dict(signal=list(n.signal), cap=n.flow_capacity, offset=float(n.signal_offset), phase=int(n.signal_phase), t=float(n.signal_t))
    return d


AFFECTS = dict(u={"u", "capacity", "q_star", "k_star", "ffs"}, kappa={"kappa", "w", "capacity", "delta", "dpl", "q_star", "k_star", "jam"}, cap_out={"cout"}, cap_in={"cin"}, node_cap={"cap"},
               signal={"signal", "offset", "phase", "t"}, phase={"phase", "t"}, prio={"prio"}, sg={"sg"}, toll={"tolls"})


def expected(e, before, W):
    """what the parameters of the target are after the event"""
    k, x = e["kind"], e.get("value")
    if k in ("u", "kappa"):
        q = dict(u=x, ffs=x) if k == "u" else dict(kappa=x, jam=x)
        u, kap = (x, before["kappa"]) if k == "u" else (before["u"], x)
        w = before["w"] * before["kappa"] / kap
        cap = u * w * kap / (u + w)
        return dict(q, w=w, capacity=cap, q_star=cap, k_star=cap / u, delta=1 / kap)
    if k == "cap_out":
        return dict(cout=x)
    if k == "cap_in":
        return dict(cin=x)
    if k == "node_cap":
        return dict(cap=x)
    if k == "prio":
        return dict(prio=x)
    if k == "sg":
        return dict(sg=list(x))
    if k == "phase":
        return dict(phase=e["phase"], t=e["t"])
    if k == "signal":
        q = dict(signal=list(e["signal"]), offset=sum(e["signal"]) - e["offset_old"] if e.get("offset_old") is not None else e.get("offset", 0))
        return dict(q, phase=0, t=0) if e.get("reset") else q
    if k == "toll":
        f = scen.toll_fn(e["toll"]) if e["toll"] else (lambda t: 0)
        return dict(tolls=[f(t) for t in (0, 100, 500, 1500)])
    return {}


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run(job):
    spec = job.get("spec") or scen.generate(job["seed"], **job["opts"])
    cpp = job["cpp"]
    calls = defaultdict(Counter)      # (kind, name) -> {T: calls}
    wrong = []
    viol, count = [], Counter()
    with env.quiet():
        W = scen.build_world(spec, cpp=cpp)
        if not cpp:
            def rec(kind, obj):
                def f(x):
                    if x is not obj:
                        wrong.append(f"the user function of {kind} {obj.name} was called with {x!r}")
                    calls[kind, obj.name][W.T] += 1
                    count["user-function-calls"] += 1
                obj.user_function = f
            for n in W.NODES:
                rec("node", n)
            for l in W.LINKS:
                rec("link", l)
            for v in W.VEHICLES.values():
                rec("vehicle", v)
        evs = defaultdict(list)
        for e in spec["events"]:
            evs[e["step"]].append(e)
        m = stepmon.Monitor(spec, W, cpp)
        m.start()
        wcalls = Counter()
        stamps = []

        def tell(T):
            """after each step"""
            m.observe()
            if T in evs:
                stamp0, par0 = records(W, T, cpp), full_params(W)
                for e in evs[T]:
                    scen.apply_event(W, e)
                    count["control-events"] += 1
                    par1 = full_params(W)
                    tgt = e.get("link") or "node:" + e["node"]
                    for k in par0:
                        diff = {f for f in par0[k] if par0[k][f] != par1[k][f] and not (isinstance(par0[k][f], float) and isinstance(par1[k][f], float) and abs(par0[k][f] - par1[k][f]) <= 1e-12 * abs(par0[k][f]))}
                        if e.get("groups") and k in W.LINKS_NAME_DICT:
                            g = [i for i, ls in enumerate(e["groups"]) if k in ls]
                            if g:
                                count["group-assignments"] += 1
                                if par1[k]["sg"] != g:
                                    viol.append(("not-applied", f"T={T}: {e} left link {k} with signal group {par1[k]['sg']}"))
                                diff -= {"sg"}
                        if k != tgt and diff:
                            viol.append(("other-object-changed", f"T={T}: {e['kind']} on {tgt} changed {sorted(diff)} of {k}"))
                        if k == tgt and not diff <= AFFECTS[e["kind"]]:
                            viol.append(("unrelated-parameter-changed", f"T={T}: {e['kind']} on {tgt} changed {sorted(diff - AFFECTS[e['kind']])} too"))
                    for f, x in expected(e, par0[tgt], W).items():
                        count["applied-values"] += 1
                        if not same(par1[tgt][f], x):
                            viol.append(("not-applied", f"T={T}: after {e} {f} of {tgt} is {par1[tgt][f]} instead of {x}"))
                    par0 = par1
                if records(W, T, cpp) != stamp0:
                    viol.append(("records-altered", f"T={T}: the events {evs[T]} altered records made up to step {T}"))
                stamps.append((T, stamp0 if len(stamps) < 3 else None))
                count["record-digests"] += 1
        if cpp:
            W.finalize_scenario()
            while W.check_simulation_ongoing() and len(m.viol) < m.max_viol:
                t0 = W.T
                W.exec_simulation(duration_t2=W.DELTAT)
                if W.T != t0 + 1:
                    break
                tell(t0)
        else:
            def uf(w):
                if w is not W:
                    wrong.append("the user function of the world was called with another object")
                wcalls[W.T] += 1
                tell(W.T)
            W.user_function = uf
            W.exec_simulation()
    for p, r, msg in m.viol:
        if p == ID or (spec["events"] and r in ("car-following", "inflow-capacity", "outflow-capacity", "node-capacity", "red-crossing", "signal-phase", "signal-time")):
            viol.append((r, msg))
    viol += [("user-function-argument", x) for x in wrong[:2]]
    if not cpp:
        N = m.T + 1
        for T in range(N):
            if wcalls[T] != 1:
                viol.append(("user-function-world", f"called {wcalls[T]} times at step {T}"))
                break
        for kind, objs in (("node", W.NODES), ("link", W.LINKS)):
            for o in objs:
                c = calls[kind, o.name]
                bad = [T for T in range(N) if c[T] != 1]
                if bad or sum(c.values()) != N:
                    viol.append((f"user-function-{kind}", f"{kind} {o.name}: called {c[bad[0]] if bad else '?'} times at step {bad[0] if bad else '?'}"))
                    break
        for nm, v in m.vehs.items():
            c = calls["vehicle", nm]
            end = v.ended_at if v.ended_at is not None else N
            bad = [T for T in range(N) if (T < end and c[T] != 1) or (T == end and c[T] > 1) or (T > end and c[T] != 0)]
            if bad:
                viol.append(("user-function-vehicle", f"vehicle {nm} (trip ended at {v.ended_at}): called {c[bad[0]]} times at step {bad[0]}"))
                break
    c = dict(m.count)
    c.update(count)
    c["steps-observed"] = m.T + 1
    c["scenarios-" + ("cpp" if cpp else "python")] = 1
    r = dict(viol=viol[:8], count=c)
    if count["control-events"]:
        r["sig"] = lawcheck.signature(m)
    if job["seed"] % 53 == 0:
        r["sample"] = dict(seed=job["seed"], engine="cpp" if cpp else "python", topo=spec["topo"], events=spec["events"][:4], steps=m.T + 1)
    return r
