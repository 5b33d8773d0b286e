"""P36 large neighborhood search: every step obeys the declared rules, and the best solution returned is the best one accepted."""
import math, os, random, warnings
from collections import Counter
import numpy as np
from vmon import env, digest

TECHNIQUE = "trace monitor of whole searches: every call of the objective, every step log and the state between steps are recorded and replayed against an independent statement of destroy, repair, acceptance, adaptation and bookkeeping; mirrored (max of -f) and repeated searches are compared step by step"
LEVEL_NOTE = "Exploration of sampled problems, operators and parameters. The two operators that need a traffic world (congest_link, min_cost) are watched through the ALNS solver in P25."
ASSUME = ["the objective is a function of the solution alone; operators draw from the module-level generators, which are seeded"]
RULE = ("Problems by seed: 1-25 positions, domains of numbers, texts, tuples, single values, inferred or given; objectives with ties, interactions, plateaus; min and max; k_min/k_max below, equal to and above the length; given and estimated temperature; all subsets of the four free operators; run in pieces, with time limits and more steps than planned. "
        "Non-trivial: at least one step was accepted and one was refused or improved the best; distinct by the step history.")
REQUIRED = ["searches", "steps", "accepted-better", "accepted-worse", "refused", "best-improved", "segments-updated", "max", "estimated-t0", "given-t0", "inferred-domains", "single-valued", "op-random", "op-segment", "op-early_dep", "op-late_dep", "always-accept", "mirrored", "repeated", "k-above-length", "array-input", "refused-arguments", "time-limit", "beyond-plan", "short-plan"]
BUDGET = dict(quick=40, thorough=500)


def jobs(tier, seed):
    n = 2400 if tier == "quick" else 60000
    base = seed * 1_000_003 + 36 * 20_011
    return [dict(seed=(base + i) % (1 << 31), so=None, timeout=120) for i in range(n)]


def problem(r):
    n = r.choice([1, 2, 3, r.randint(3, 12), r.randint(5, 25)])
    kind = r.choice(["int", "str", "tuple", "mixed"])
    pool = {"int": list(range(8)), "str": list("abcdefgh"), "tuple": [(i, i % 3) for i in range(6)], "mixed": [0, "a", (1, 2), 3.5, "zz", 7]}[kind]
    given = r.random() < 0.75
    dom = [r.sample(pool, r.choice([1, 2, r.randint(2, len(pool))])) for _ in range(n)]
    x = [r.choice(d) for d in dom]
    if not given:
        dom = [sorted(set(x), key=lambda v: (str(type(v)), str(v))) for _ in range(n)]
    w = [{v: r.randint(-4, 4) if r.random() < 0.5 else r.randint(0, 1000) for v in pool} for _ in range(n)]
    mode = r.choice(["sum", "pairs", "plateau", "target"])
    target = r.randint(-10, 50 * n)

    def f(xx):
        s = sum(w[i][v] for i, v in enumerate(xx))
        if mode == "pairs":
            s += sum(7 for a, b in zip(xx, xx[1:]) if a == b) - 3 * len(set(xx))
        elif mode == "plateau":
            s = s // 40
        elif mode == "target":
            s = abs(s - target)
        return s
    return n, kind, given, dom, x, f


def run(job):
    from uxsim.DTAsolvers import ALNS
    r = random.Random(job["seed"] * 6151 + 36)
    c, v = Counter(), []

    def bad(rule, msg):
        if len(v) < 4:
            v.append((rule, msg))
    n, kind, given, dom, x, f = problem(r)
    sense = r.choice(["min", "max"])
    sgn = 1 if sense == "min" else -1
    ds = r.sample(["random", "segment", "early_dep", "late_dep"], r.randint(1, 4))
    k_max = r.choice([1, 2, 5, n, n + 3])
    k_min = r.choice([1, 1, 2, None, n, min(k_max, 3)])
    kw = dict(sense=sense, destroy_set=ds, repair_set=["random"], k_min=k_min, k_max=k_max, always_accept=r.random() < 0.15, segment_len=r.choice([1, 3, 10, 50]), adapt_eta=r.choice([0, 0.2, 1.0]),
              total_iters=r.choice([40, 120, 300]), seed=r.randrange(1 << 20), p0=r.choice([0.2, 0.5]), Tend=r.choice([1e-3, 1e-6, 1]),
              reward_improve_best=r.choice([5.0, 1.5]), reward_improve=2.0, reward_accept_worse=r.choice([0.5, 0.0]))
    t0 = r.random() < 0.5
    if t0:
        kw["T0"] = r.choice([1.0, 50.0, 1000.0])
    else:
        kw["trials"] = r.choice([5, 20, 50])
    dep = np.array([r.random() for _ in range(n)])
    if given:
        kw["domains"] = dom
    xin = np.array(x) if kind == "int" and r.random() < 0.5 else tuple(x) if r.random() < 0.2 else list(x)
    if isinstance(xin, np.ndarray):
        c["array-input"] += 1
    planned = kw["total_iters"]
    steps_n = r.choice([planned // 2, planned, planned + 20])

    def play(kw, f, observe):
        random.seed(kw["seed"] + 7)
        np.random.seed(kw["seed"] % (1 << 31))
        calls = []

        def obj(xx):
            q = list(xx)
            val = f(q)
            calls.append((q, val))
            return val
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            st = ALNS.init_alns(xin, obj, additional_info=dict(departure_times=dep), **kw)
        if observe:
            init(st, calls, ws)
        ncall = len(calls)
        cur = list(x)
        out = []
        sp = r.choice([steps_n, 1, 17]) if observe else steps_n
        while len(out) < steps_n:
            before = ALNS.get_current_x(st)
            k = min(sp, steps_n - len(out))
            new = ALNS.run_auto(st, k) if sp > 1 else [ALNS.auto_step(st)]
            if len(new) != (k if sp > 1 else 1):
                bad("steps", f"run_auto({k}) made {len(new)} steps")
                break
            out += new
            if observe and sp == 1 and len(calls) == ncall + 1:
                q = ALNS.get_current_x(st)
                want = calls[-1][0] if new[0].accepted else before
                if q != want:
                    bad("current", f"step {new[0].iter}, accepted={new[0].accepted}: the current solution is {q}, expected {want}")
                q[:] = [None] * n
                if ALNS.get_current_x(st) != want:
                    bad("current", "get_current_x hands out the search's own list")
                ncall += 1
        return st, calls, out

    def init(st, calls, ws):
        if list(xin) != x:
            bad("input", "the initial solution given was changed")
        if ALNS.get_current_x(st) != x or ALNS.get_best_x(st) != x:
            bad("start", f"the search of {x} starts with {ALNS.get_current_x(st)}")
        tot = planned
        tr = 0
        if not t0:
            tr = kw["trials"] if planned > kw["trials"] else int(planned * 0.5)
            tot -= tr
            if planned <= kw["trials"]:
                c["short-plan"] += 1
        c["given-t0" if t0 else "estimated-t0"] += 1
        if len(calls) != 1 + tr or calls[0] != (x, f(x)):
            bad("start", f"{len(calls)} evaluations before the first step, expected {1 + tr}; first {calls[0]}")
        for q, _ in calls[1:]:
            dk = [i for i in range(n) if q[i] != x[i]]
            if len(dk) > kmax or any(a not in d for a, d in zip(q, dom)):
                bad("domain", f"trial solution {q} of {x}: {len(dk)} changes (at most {kmax}), domains {dom[:5]}")
        st0.update(tot=tot, tr=tr, ncalls=len(calls), T0=kw.get("T0") or st.T0)
        if not t0:
            worse = sorted(d for d in (sgn * (val - f(x)) for _, val in calls[1:]) if d > 0) or [1.0]
            want = max(1e-6, worse[len(worse) // 2] / max(1e-12, math.log(1 / kw["p0"])))
            if abs(st.T0 - want) > 1e-9 * want:
                bad("temperature", f"estimated start temperature {st.T0}, the trials say {want}")
    km = k_max if k_min is None else k_min
    kmin = max(1, min(km, n))
    kmax = max(kmin, min(k_max, n))
    if k_max > n:
        c["k-above-length"] += 1
    st0 = {}
    rs = r.getstate()
    st, calls, logs = play(kw, f, True)
    c["searches"] += 1
    c[sense] += 1
    if not given:
        c["inferred-domains"] += 1
    if any(len(d) == 1 for d in dom):
        c["single-valued"] += 1
    if kw["always_accept"]:
        c["always-accept"] += 1
    if not v:
        # replay of the steps
        if len(calls) != st0["ncalls"] + len(logs):
            bad("steps", f"{len(logs)} steps, {len(calls) - st0['ncalls']} evaluations")
        if len(logs) > st0["tot"]:
            c["beyond-plan"] += 1
        cur, curv = list(x), f(x)
        best, bestv = list(x), curv
        T0, tot = st0["T0"], st0["tot"]
        init_w = dict(random=1.0, segment=1.0, early_dep=5.0, late_dep=0.2)
        dw = {k: init_w[k] for k in ds}
        rw = dict(random=1.0)
        sc, us, bi = Counter(), Counter(), Counter()
        rsc, rus, rbi = 0.0, 0, 0
        cd = kw["segment_len"]
        for i, (lg, (q, val)) in enumerate(zip(logs, calls[st0["ncalls"]:])):
            c["steps"] += 1
            if v:
                break
            where = f"step {i + 1} ({lg.move}), {sense}, n={n}, k {kmin}..{kmax}"
            d = lg.move.split("+")[0][2:]
            if lg.iter != i + 1 or d not in ds or lg.move.split("+")[1] != "R:random":
                bad("steps", f"{where}: numbered {lg.iter}, operators allowed {ds}")
                break
            c["op-" + d] += 1
            idx = [int(k) for k in lg.changed_idx]
            diff = [k for k in range(n) if q[k] != cur[k]]
            if len(q) != n or any(a not in dm for a, dm in zip(q, dom)):
                bad("domain", f"{where}: candidate {q} outside of the domains {dom[:6]}")
            kc = kmax
            tc = T0 * (kw["Tend"] / T0) ** (max(0, min(i, max(1, tot))) / max(1, tot))
            kc = min(kmax, max(kmin, int((kmax - kmin) * tc / T0 + kmin)))
            slack = {kc, min(kmax, max(kmin, int((kmax - kmin) * tc / T0 + kmin + 1e-9))), min(kmax, max(kmin, int((kmax - kmin) * tc / T0 + kmin - 1e-9)))}
            if len(set(idx)) != len(idx) or not (1 <= len(idx) <= max(slack)) or (len(idx) < kmin and d != "segment") or lg.changed_idxs != len(idx):
                bad("destroy", f"{where}: {idx} destroyed, between {kmin} and {max(slack)} different positions allowed")
            if d == "segment" and n >= 2 and (sorted(idx) != list(range(min(idx), min(idx) + len(idx))) or len(idx) < kmin and max(idx) != n - 1):
                bad("destroy", f"{where}: destroyed segment {idx}")
            if not set(diff) <= set(idx):
                bad("destroy", f"{where}: positions {sorted(set(diff) - set(idx))} changed without having been destroyed")
            stuck = [k for k in idx if k not in diff and len(set(dom[k]) - {cur[k]}) > 0]
            if stuck:
                bad("repair", f"{where}: position {stuck[0]} was destroyed and got its old value {cur[stuck[0]]!r} again, domain {dom[stuck[0]]}")
            if val != f(q):
                bad("machinery", "objective")
            delta = sgn * (val - curv)
            if lg.delta_obj != delta:
                bad("log", f"{where}: logged difference {lg.delta_obj}, the objective went from {curv} to {val}")
            T = T0 * (kw["Tend"] / T0) ** (max(0, min(i + 1, max(1, tot))) / max(1, tot))
            if abs(lg.temperature - T) > 1e-9 * T:
                bad("temperature", f"{where}: temperature {lg.temperature}, geometric cooling from {T0} to {kw['Tend']} in {tot} steps gives {T}")
            p = math.exp(-delta / max(T, 1e-12)) if delta > 0 else 1
            if (delta <= 0 or kw["always_accept"]) and not lg.accepted:
                bad("accept", f"{where}: a candidate with difference {delta} was refused (always_accept={kw['always_accept']})")
            if delta > 0 and not kw["always_accept"] and lg.accepted and p < 1e-12:
                bad("accept", f"{where}: a candidate worse by {delta} was accepted at temperature {T}")
            if delta > 0 and not kw["always_accept"]:
                c["p-sum"] += p
                c["var-sum"] += p * (1 - p)
                c["acc-worse"] += lg.accepted
                if 1e-9 < p < 1 - 1e-9:     # score for the logarithm of the temperature
                    w = delta / T / (1 - p)
                    c["score"] += (lg.accepted - p) * w
                    c["info"] += p * (1 - p) * w * w
            c["accepted-better" if lg.accepted and delta < 0 else "accepted-worse" if lg.accepted and delta > 0 else "accepted-equal" if lg.accepted else "refused"] += 1
            if lg.accepted:
                cur, curv = q, val
            us[d] += 1
            rus += 1
            if sgn * (curv - bestv) < 0:
                best, bestv = list(cur), curv
                c["best-improved"] += 1
                bi[d] += 1
                rbi += 1
                rew = kw["reward_improve_best"]
            else:
                rew = 0 if not lg.accepted else kw["reward_improve"] if delta < 0 else kw["reward_accept_worse"] if delta > 0 else 0
            sc[d] += rew
            rsc += rew
            cd -= 1
            if cd <= 0:
                c["segments-updated"] += 1
                e = kw["adapt_eta"]
                for m in ds:
                    dw[m] = (1 - e) * dw[m] + e * max(1e-6, sc[m] / max(1, us[m]))
                rw["random"] = (1 - e) * rw["random"] + e * max(1e-6, rsc / max(1, rus))
                sc, us, rsc, rus = Counter(), Counter(), 0.0, 0
                cd = kw["segment_len"]
            if lg.obj_val != curv or lg.best_obj != bestv:
                bad("log", f"{where}: logged value {lg.obj_val} and best {lg.best_obj}, they are {curv} and {bestv}")
        if not v:
            got, run_ = ALNS.finalize(st, "done")
            if list(got) != best or f(list(got)) != bestv or run_.best_obj != bestv or list(run_.best_x) != best or ALNS.get_best_x(st) != best:
                bad("best", f"{sense}: returned {got} with value {f(list(got))} (log: {run_.best_obj}), the best accepted solution is {best} with {bestv}")
            if len(run_.steps) != len(logs) or run_.stop_reason != "done" or run_.seed != kw["seed"]:
                bad("log", f"the run log has {len(run_.steps)} steps, {len(logs)} were made; reason {run_.stop_reason!r}, seed {run_.seed}")
            for m in ds:
                s = run_.operator_stats["destroy"][m]
                if abs(s["weight"] - dw[m]) > 1e-9 * max(1, dw[m]) or s["best_improves"] != bi[m] or s["uses"] != us[m]:
                    bad("adaptation", f"operator {m}: {s}, the steps say weight {dw[m]}, {us[m]} uses since the last update, {bi[m]} improvements")
            s = run_.operator_stats["repair"]["random"]
            if abs(s["weight"] - rw["random"]) > 1e-9 or s["best_improves"] != rbi or s["uses"] != rus:
                bad("adaptation", f"repair operator: {s}, the steps say weight {rw['random']}, {rus}, {rbi}")
            df = run_.to_dataframe()
            if len(df) != len(logs) or list(df["best_obj"]) != [q.best_obj for q in logs]:
                bad("log", "to_dataframe does not list the steps")
            got[:] = [None] * n
            if ALNS.get_best_x(st) != best:
                bad("best", "finalize hands out the search's own list")
            ALNS.run_auto(st, 3)
            if len(run_.steps) != len(logs) or list(run_.best_x) != best:
                bad("log", "going on with the search changed the log already returned")
            c["time-limit"] += 1
            k = len(st.steps)
            if ALNS.run_auto(st, 5, time_limit_s=0) or len(st.steps) != k:
                bad("steps", "time_limit_s=0 made steps")
    key = [(q.move, [int(k) for k in q.changed_idx], q.accepted) for q in logs]
    if not v and r.random() < 0.5:
        c["repeated"] += 1
        _, calls2, logs2 = play(kw, f, False)
        if [(q.move, [int(k) for k in q.changed_idx], q.accepted) for q in logs2] != key or calls2 != calls[:len(calls2)]:
            k = next((i for i, (a, b) in enumerate(zip(calls, calls2)) if a != b), None)
            bad("repeat", f"the same search repeated with the same generators goes another way from evaluation {k}")
    if not v and r.random() < 0.5:
        c["mirrored"] += 1
        kw2 = dict(kw, sense="max" if sense == "min" else "min")
        _, calls3, logs3 = play(kw2, lambda q: -f(q), False)
        if [(q.move, [int(k) for k in q.changed_idx], q.accepted) for q in logs3] != key or [-q.best_obj for q in logs3] != [q.best_obj for q in logs]:
            bad("mirror", f"{sense} of f and {kw2['sense']} of -f go different ways")
    for what, k2 in r.sample([("sense", dict(sense="best")), ("empty set", dict(destroy_set=[])), ("empty set", dict(repair_set=[])), ("operator", dict(destroy_set=["nothing"])), ("operator", dict(repair_set=["nothing"])), ("empty domain", dict(domains=[[]] + [[0]] * (n - 1)))], 2):
        c["refused-arguments"] += 1
        try:
            ALNS.init_alns(x, f, **dict(kw, **k2))
            bad("arguments", f"{what}: {k2} was accepted")
        except ValueError:
            pass
    res = dict(viol=v, count={k: int(q) for k, q in c.items() if k not in ("p-sum", "var-sum", "acc-worse", "score", "info")})
    res["count"].update({"expected-milli": int(c["p-sum"] * 1e3), "variance-milli": int(c["var-sum"] * 1e3), "worse-accepted": int(c["acc-worse"]), "score-milli": int(c["score"] * 1e3), "info-milli": int(c["info"] * 1e3)})
    if c["accepted-better"] + c["accepted-worse"] + c["accepted-equal"] and c["refused"] + c["best-improved"]:
        res["sig"] = digest.hexdigest(dict(k=repr(key), c=repr(calls[-1])))
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], n=n, sense=sense, operators=ds, steps=len(logs), accepted=sum(q.accepted for q in logs), best=logs[-1].best_obj if logs else None)
    return res


def final(res, count):
    """acceptance of worse candidates follows the annealing probability over all searches"""
    e, var, got = count.get("expected-milli", 0) / 1e3, count.get("variance-milli", 0) / 1e3, count.get("worse-accepted", 0)
    z = (got - e) / math.sqrt(var) if var > 30 else 0
    out = dict(worse_accepted=got, expected=round(e, 1), z=round(z, 2))
    if abs(z) > 4.5:
        out["viol"] = [("accept", f"{got} worse candidates were accepted in all searches, the annealing rule expects {e:.0f} (z={z:.1f})", None)]
    info = count.get("info-milli", 0) / 1e3
    z2 = count.get("score-milli", 0) / 1e3 / math.sqrt(info) if info > 30 else 0
    out["z_temperature"] = round(z2, 2)
    if abs(z2) > 4.5 and "viol" not in out:
        out["viol"] = [("accept", f"worse candidates are accepted as if the temperature were another one: estimated log-ratio {z2 / math.sqrt(info):.3f} (z={z2:.1f})", None)]
    return out
