"""P13 running in pieces. Differential oracle: the same scenario run at once and run in randomly cut pieces with queries in
between must give the same picture (vmon.digest), and the clock must obey the documented arithmetic after every call."""
import hashlib, math, random
from vmon import scen, env, digest, queries

TECHNIQUE = "differential trace oracle: uninterrupted run vs. randomly chunked runs (with queries in between) of the real engines, plus a clock monitor on every call"
LEVEL_NOTE = "Exploration: chunkings and scenarios are sampled. The reference is the same code run in one call, so a defect present in both is out of scope here (the step law of P01-P12 judges the steps themselves)."
RULE = ("Scenarios by seed on both engines; each is executed once in one call and again in random pieces (until_t, duration_t, duration_t2, mixtures, single steps, "
        "zero-length and repeated requests), with random read-only queries between pieces. Non-trivial: at least two pieces; distinct by the hash of the cut.")
REQUIRED = ["call-until_t", "call-duration_t", "call-duration_t2", "call-rest", "pieces", "queries", "compared-cpp", "compared-python", "steps-once-checked", "after-end", "backward-refused"]
BUDGET = dict(quick=45, thorough=700)
MODES = ["mix", "single", "until", "dur", "dur2", "coarse"]


VEX = dict(vex=1, p_vehicles=1.0, events=3, event_kinds=["veh_avoid", "veh_prefer", "veh_route", "addveh", "adddem", "u", "signal", "node_cap"])


def jobs(tier, seed):
    n = 180 if tier == "quick" else 1400
    base = seed * 1_000_003 + 13 * 20_011
    out = []
    for i in range(n):
        cpp = i % 3 == 2
        o = dict(max_platoons=90, frac_tmax=True)
        if not cpp and i % 4 == 2:
            o.update(VEX)
        if i % 4 == 1:
            o["odd_dt"] = 1.0
        out.append(dict(seed=(base + i) % (1 << 31), cpp=cpp, opts=o, so="plain" if cpp else None, mode=MODES[i // 3 % len(MODES)], heavy=(i % 5 == 0)))
    return [j for j in out if not j["cpp"]][:n // 3] + sorted([j for j in out if j["cpp"]] + [j for j in out if not j["cpp"]][n // 3:], key=lambda j: j["seed"] * 2654435761 % 1000003)


def build(spec, job, steps):
    over = {}
    r = random.Random(job["seed"] + 5)
    if r.random() < 0.2:
        over["tmax"] = None
        over["auto"] = True
    auto = over.pop("auto", False)
    W = scen.build_world(spec, job["cpp"], **over)
    if not job["cpp"]:
        evs = {}
        for e in spec.get("events", []):
            evs.setdefault(e["step"], []).append(e)

        def uf(W_):
            steps.append(W_.T)
            for e in evs.get(W_.T, ()):
                scen.apply_event(W_, e)
        W.user_function = uf
    return W, auto


def run(job):
    spec = scen.generate(job["seed"], **dict(job["opts"], events=0 if job["cpp"] else 4))
    r = random.Random(job["seed"] * 3 + 1)
    c, viol = {}, []

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n

    def bad(rule, msg):
        if len(viol) < 4:
            viol.append((rule, msg))
    with env.quiet():
        s0 = []
        W0, auto = build(spec, job, s0)
        ret = W0.exec_simulation()
        if ret != 1:
            bad("completion", f"exec_simulation() to the end returned {ret!r}, not 1")
        ref = digest.capture(W0, tables=job["heavy"])
        N = W0.TSIZE
        if W0.T != N:
            bad("clock", f"the clock stands at step {W0.T} of {N} after the whole run")
        # in pieces
        s1 = []
        W, _ = build(spec, job, s1)
        cuts = []
        fin = False
        dt = W.DELTAT
        cur = 0
        mode = job["mode"]
        budget_q = 40 if not job["heavy"] else 60
        first = True
        nothing = 0
        while not fin:
            if len(cuts) > 3 * N + 20:
                bad("stuck", f"after {len(cuts)} calls the clock still stands at {W.T} of {N}")
                break
            left = N - cur
            big = max(1, int(r.choice([0.05, 0.15, 0.3, 0.6]) * N))
            k = 1 if mode == "single" else r.randint(1, max(1, min(left + 2, big))) if mode != "coarse" else r.randint(max(1, N // 3), N)
            kind = {"single": r.choice(["until", "dur2", "dur"]), "until": "until", "dur": "dur", "dur2": "dur2"}.get(mode) or r.choice(["until", "dur", "dur2", "rest" if r.random() < 0.2 else "dur2"])
            frac = r.choice([0, 0, 0.25, 0.5]) * dt
            # the documented arithmetic: until_t and duration_t include the step that starts there, duration_t2 is exact
            if kind == "until":
                t = (cur + k - 1) * dt + frac
                kw, end = dict(until_t=t), int(t / dt)
            elif kind == "dur":
                t = (k - 1) * dt + frac
                kw, end = dict(duration_t=t), cur + int(t / dt)
            elif kind == "dur2":
                t = k * dt + frac
                kw, end = dict(duration_t2=t), cur + int(t / dt) - 1
            else:
                kw, end = {}, N
            cnt("call-" + {"until": "until_t", "dur": "duration_t", "dur2": "duration_t2", "rest": "rest"}[kind])
            if end < cur:
                # rounding of the quotient: such a call asks for nothing and must be refused without effect
                try:
                    W.exec_simulation(**kw)
                    bad("clock", f"exec_simulation({kw}) at step {cur} asks for no step but was accepted")
                except Exception:
                    pass
                nothing += 1
                if nothing > 50:
                    kw, end = dict(duration_t2=1.5 * dt), cur
                else:
                    continue
            try:
                ret = W.exec_simulation(**kw)
            except Exception as e:
                bad("raised", f"exec_simulation({kw}) at step {cur} of {N} raised {type(e).__name__}: {str(e)[:100]}")
                break
            new = min(end, N - 1) + 1
            cnt("pieces")
            cuts.append((kind, new))
            if W.T != new:
                bad("clock", f"exec_simulation({ {a: round(b, 6) for a, b in kw.items()} }) at step {cur} of {N} (DELTAT {dt}) moved the clock to {W.T}, expected {new}")
                break
            if abs(W.TIME - W.T * dt) > 1e-9:
                bad("clock", f"TIME {W.TIME} at step {W.T} with DELTAT {dt}")
            if bool(ret) != (new == N):
                bad("completion", f"exec_simulation returned {ret!r} with the clock at {new} of {N}")
            if bool(W.check_simulation_ongoing()) != (new < N):
                bad("completion", f"check_simulation_ongoing() is {W.check_simulation_ongoing()!r} at {new} of {N}")
            cur = new
            fin = cur == N
            if not fin and r.random() < (0.5 if mode != "single" else 0.15) and budget_q > 0:
                qs = queries.LIGHT + (queries.HEAVY if job["heavy"] else [])
                for q in r.sample(qs, r.randint(1, 4)):
                    q(W, r)
                    cnt("queries")
                    budget_q -= 1
            if not fin and cur > 1 and r.random() < 0.05:
                # going back in time is refused and leaves no trace
                try:
                    W.exec_simulation(until_t=(cur - 2) * dt)
                    bad("clock", f"exec_simulation(until_t) in the past of step {cur} was accepted; clock {W.T}")
                except Exception:
                    cnt("backward-refused")
                if W.T != cur:
                    bad("clock", f"a refused call moved the clock from {cur} to {W.T}")
        if not viol:
            pic = digest.capture(W, tables=job["heavy"])
            for d in digest.compare(ref, pic)[:2]:
                bad("differs", f"run in pieces ({mode}, {len(cuts)} calls) vs at once: {d}")
            cnt("compared-" + ("cpp" if job["cpp"] else "python"))
            cnt("vehicles-compared", len(ref["vehicles"]))
            if not job["cpp"]:
                cnt("steps-once-checked", N)
                if s1 != list(range(N)):
                    i = next((i for i, (a, b) in enumerate(zip(s1 + [None], range(N))) if a != b), N)
                    bad("step-sequence", f"steps executed: position {i} is {s1[i:i+2]}, {len(s1)} of {N}")
                if s0 != list(range(N)):
                    bad("step-sequence", f"one call executed {len(s0)} steps of {N}, last {s0[-2:]}")
            # calls after the end change nothing
            for kw in ({}, dict(duration_t2=5 * dt), dict(until_t=N * dt)):
                try:
                    ret = W.exec_simulation(**kw)
                    if ret != 1:
                        bad("completion", f"exec_simulation({kw}) after the end returned {ret!r}")
                except Exception as e:
                    bad("raised", f"exec_simulation({kw}) after the end raised {type(e).__name__}: {e}")
                cnt("after-end")
            for d in digest.compare(pic, digest.capture(W, tables=job["heavy"]))[:1]:
                bad("after-end-differs", f"calls after the end changed the world: {d}")
    res = dict(viol=viol, count=c)
    if len(cuts) >= 2:
        res["sig"] = hashlib.blake2b(repr((job["seed"], cuts)).encode(), digest_size=8).hexdigest()
    if job["seed"] % 29 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if job["cpp"] else "python", mode=mode, cuts=cuts[:8], steps=N)
    return res
