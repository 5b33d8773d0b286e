"""P26 taxi dispatch: what happens to each request is reconstructed from where the taxis are at the end of every step and compared with what the handler says."""
import contextlib, hashlib, io, math, random
from collections import Counter, defaultdict
from vmon import scen, env

TECHNIQUE = "online monitor at the end of every step: positions of all taxis drive an independent model of pick-ups, drop-offs and plans, which the handler's records, the taxis' destinations and every dispatch decision are compared with"
LEVEL_NOTE = "Exploration of sampled fleets, request patterns, dispatchers and networks; every step, taxi, request and dispatch is judged. Python engine only (the C++ engine declares taxis unsupported)."
ASSUME = ["a taxi serves one request at a time with the given dispatchers; requests shared in one taxi by a user's own dispatcher have different nodes (the handler keeps one event per node)"]
RULE = ("Scenarios by seed (grids, rings, random digraphs, two-route networks, dead ends) with background traffic, 1-25 taxis with and without initial tours, 5-60 requests added before and during the run, the three dispatchers and direct assignment (also shared), called every 1-30 steps from inside or between calls. "
        "Non-trivial: at least one request completed; distinct by the hash of the service history.")
REQUIRED = ["requests", "assigned", "picked-up", "completed", "steps", "taxi-steps", "dispatches", "dispatch-random", "dispatch-nearest", "dispatch-radius", "dispatch-direct", "dispatch-shared", "dispatch-no-vacant", "dispatch-out-of-radius", "nearest-choices", "assigned-at-origin-end",
            "orig-is-dest", "tours", "tour-stops", "tour-inserted", "late-requests", "background-vehicles", "stats-judged", "unserved", "onboard-at-end", "between-calls", "by-name", "double-assignment-refused", "aborted-taxi", "queued-taxi", "taxi-link-changes"]
BUDGET = dict(quick=40, thorough=600)


def jobs(tier, seed):
    n = 1500 if tier == "quick" else 6000
    base = seed * 1_000_003 + 26 * 20_011
    mix = [("grid", 5), ("ring", 3), ("random", 4), ("tworoute", 1), ("trap", 1)]
    return [dict(seed=(base + i) % (1 << 31), cpp=False, so=None, timeout=200, opts=dict(mix=mix, max_platoons=60, steps=[150, 300][i % 2], **(dict(odd_dt=0.6) if i % 6 == 0 else {}))) for i in range(n)]


class Req:
    def __init__(s, tr, o, d, t):
        s.tr, s.o, s.d, s.t = tr, o, d, t
        s.state, s.taxi, s.pick, s.drop = "waiting", None, None, None


class Mon:
    def __init__(s, W, H, r):
        s.W, s.H, s.r = W, H, r
        s.v, s.c, s.h = [], defaultdict(int), hashlib.blake2b(digest_size=8)
        s.reqs, s.taxis, s.plan, s.aborted = [], [], {}, set()
        s.active = defaultdict(list)
        s.dt = W.DELTAT
        s.hook = None

    def bad(s, rule, msg):
        if len(s.v) < 6:
            s.v.append((rule, msg))

    def add(s, o, d, t, **kw):
        byname = s.r.random() < .4
        q = (o, d) if byname else (s.W.get_node(o), s.W.get_node(d))
        s.c["by-name"] += byname
        n = len(s.H.trip_requests_all)
        s.H.add_trip_request(q[0], q[1], t, **kw)
        tr = s.H.trip_requests_all[n] if len(s.H.trip_requests_all) == n + 1 else None
        if tr is None or tr not in s.H.trip_requests or tr.orig.name != o or tr.dest.name != d or tr.depart_time != t:
            s.bad("request-recorded", f"request {o}->{d} at {t} is recorded as {tr}")
            return
        s.reqs.append(Req(tr, o, d, t))
        s.c["requests"] += 1
        s.c["orig-is-dest"] += o == d

    def step(s, W):
        T = W.T
        s.c["steps"] += 1
        if W.TIME != T * s.dt:
            s.bad("time", f"World.TIME is {W.TIME} at the end of step {T}")
        for x in s.taxis:
            if x.state == "run":
                l = x.link
                at = l.end_node.name if abs(x.x - l.length) < 1e-9 else None
                s.c["taxi-steps"] += 1
            elif x.state == "abort" and x not in s.aborted:
                s.aborted.add(x)
                at = next((e[1].end_node.name for e in reversed(x.log_t_link) if hasattr(e[1], "end_node")), None)
                s.c["aborted-taxi"] += 1
            else:
                continue
            plan = s.plan[x]
            if at is not None:
                for q in list(s.active[x]):
                    if x in s.aborted and (q.tr.get_taxi_time if q.state == "assigned" else q.tr.arrival_time) != T * s.dt:
                        continue      # a taxi that is removed from a dead end while it queues there need not serve anybody
                    if q.state == "assigned" and q.o == at:
                        q.state, q.pick = "onboard", T * s.dt
                        plan.append(q.d)
                        s.c["picked-up"] += 1
                        s.h.update(f"p{q.o}{T}".encode())
                    elif q.state == "onboard" and q.d == at:
                        q.state, q.drop = "completed", T * s.dt
                        s.active[x].remove(q)
                        s.c["completed"] += 1
                        s.h.update(f"d{q.d}{T}".encode())
                if plan and plan[0] == at:
                    plan.pop(0)
                    s.c["tour-stops"] += 1
                s.c["queued-taxi"] += x.v == 0
            if x.state == "run":
                have = ([x.dest.name] if x.dest is not None and not isinstance(x.dest, str) else [x.dest] if x.dest is not None else []) + [n.name for n in x.dest_list]
                if have != plan:
                    s.bad("plan", f"step {T}: taxi {x.name} is to visit {have}, its requests and tour ask for {plan}")
        s.judge(f"step {T}")
        if s.hook:
            s.hook(T)

    def judge(s, tag):
        wait = Counter(id(t) for t in s.H.trip_requests)
        for q in s.reqs:
            tr = q.tr
            if (wait[id(tr)] == 1) != (q.state == "waiting") or wait[id(tr)] > 1:
                s.bad("state", f"{tag}: request {tr.name} {q.o}->{q.d} is {q.state} and listed {wait[id(tr)]} times as waiting")
            if tr.taxi is not q.taxi:
                s.bad("state", f"{tag}: request {tr.name} has taxi {tr.taxi}, was assigned to {q.taxi}")
            if tr.get_taxi_time != q.pick:
                s.bad("pick-up", f"{tag}: request {tr.name} {q.o}->{q.d} ({q.state}) has pick-up time {tr.get_taxi_time}; its taxi was first there at {q.pick}")
            if tr.arrival_time != q.drop:
                s.bad("drop-off", f"{tag}: request {tr.name} {q.o}->{q.d} ({q.state}) has arrival time {tr.arrival_time}; its taxi was first there at {q.drop}")
        if len(s.H.trip_requests_all) != len(s.reqs):
            s.bad("state", f"{tag}: {len(s.H.trip_requests_all)} requests are recorded, {len(s.reqs)} were made")

    def took(s, q, x, direct=False):
        q.state, q.taxi = "assigned", x
        s.plan[x].append(q.o)
        s.active[x].append(q)
        s.c["assigned"] += 1
        s.c["assigned-at-origin-end"] += x.link is not None and x.link.end_node.name == q.o and abs(x.x - x.link.length) < 1e-9
        s.h.update(f"a{x.name}{q.o}{q.d}".encode())
        if not direct and len(s.active[x]) > 1:
            s.bad("one-at-a-time", f"taxi {x.name} was given request {q.tr.name} while serving {[a.tr.name for a in s.active[x][:-1]]}")

    def pos(s, x):
        l = x.link
        f = x.x / l.length
        return (l.start_node.x + (l.end_node.x - l.start_node.x) * f, l.start_node.y + (l.end_node.y - l.start_node.y) * f)

    def dispatch(s, kind, radius=None):
        now = s.W.TIME
        free = [x for x in s.taxis if x.state == "run" and not s.plan[x]]
        due = [q for q in s.reqs if q.state == "waiting" and q.t <= now]
        order = {id(t): i for i, t in enumerate(s.H.trip_requests)}
        before = {id(q.tr): q.tr.taxi for q in s.reqs}
        s.H.assign_trip_request_to_taxi()
        s.c["dispatches"] += 1
        s.c["dispatch-" + kind] += 1
        s.c["dispatch-no-vacant"] += bool(due) and not free
        due.sort(key=lambda q: order[id(q.tr)])
        for q in s.reqs:
            if q not in due and q.tr.taxi is not before[id(q.tr)]:
                s.bad("assigned-only-due", f"{now}: request {q.tr.name} ({q.state}, departs {q.t}) was assigned to {q.tr.taxi}")
        for q in due:
            x = q.tr.taxi
            ds = {y: math.dist(s.pos(y), (q.tr.orig.x, q.tr.orig.y)) for y in free} if kind != "random" else {}
            if x is None:
                if kind != "radius" and free:
                    s.bad("dispatch-complete", f"{now}: request {q.tr.name} stays unassigned although taxis {[y.name for y in free[:4]]} are vacant")
                elif kind == "radius":
                    near = [y for y in free if ds[y] <= radius * (1 - 1e-9)]
                    s.c["dispatch-out-of-radius"] += bool(free) and not near
                    if near:
                        s.bad("dispatch-complete", f"{now}: request {q.tr.name} stays unassigned although vacant taxi {near[0].name} is {ds[near[0]]} away (radius {radius})")
                continue
            if x not in free:
                s.bad("assigned-vacant", f"{now}: request {q.tr.name} was assigned to {x}, which was not vacant")
                return
            if kind != "random":
                s.c["nearest-choices"] += len(free) > 1
                m = min(ds.values())
                if ds[x] > m + 1e-9 * (1 + m):
                    s.bad("nearest", f"{now}: request {q.tr.name} was assigned to taxi {x.name} at distance {ds[x]}, a vacant one is {m} away")
                if kind == "radius" and ds[x] > radius * (1 + 1e-9):
                    s.bad("radius", f"{now}: request {q.tr.name} was assigned to a taxi {ds[x]} away, beyond the radius {radius}")
            free.remove(x)
            s.took(q, x)
        s.judge(f"after dispatch at {now}")

    def direct(s, shared):
        now = s.W.TIME
        for q in s.reqs:
            if q.state != "waiting" or q.t > now:
                continue
            c = [x for x in s.taxis if x.state == "run" and (shared or not s.plan[x])]
            if shared:
                c = [x for x in c if len(s.active[x]) < 3 and not {q.o, q.d} & {n for a in s.active[x] for n in (a.o, a.d)} and q.o != q.d]
            if not c:
                continue
            x = s.r.choice(c)
            s.c["dispatch-shared"] += bool(s.active[x])
            s.H.assign_taxi(x, q.tr)
            s.took(q, x, True)
            s.c["dispatch-direct"] += 1
            if s.r.random() < .2:
                try:
                    s.H.assign_taxi(s.r.choice(s.taxis), q.tr)
                    s.bad("assigned-once", f"request {q.tr.name} could be assigned a second time")
                except ValueError:
                    s.c["double-assignment-refused"] += 1
        s.judge(f"after assignment at {now}")


def run(job):
    env.uxsim()
    import uxsim.TaxiHandler as TH
    r = random.Random(job["seed"] * 13 + 5)
    spec = scen.generate(job["seed"], **job["opts"])
    W = scen.build_world(spec, False)
    outs, ins = defaultdict(list), Counter()
    for l in spec["links"]:
        outs[l["start"]].append(l["end"])
        ins[l["end"]] += 1
    starts = [n["name"] for n in spec["nodes"] if outs[n["name"]]]
    ends = [n["name"] for n in spec["nodes"] if ins[n["name"]]]
    kind = r.choice(["random", "nearest", "nearest", "radius", "direct", "shared"])
    xs = [n["x"] for n in spec["nodes"]]
    ys = [n["y"] for n in spec["nodes"]]
    radius = r.choice([.3, .6, 1.]) * (math.hypot(max(xs) - min(xs), max(ys) - min(ys)) or 1.) if kind == "radius" else None
    H = TH.TaxiHandler_random(W) if kind == "random" else TH.TaxiHandler_nearest_matching_radious(W, radius) if kind == "radius" else TH.TaxiHandler_nearest(W)
    m = Mon(W, H, r)
    dt, tmax = m.dt, W.TMAX
    steps = int(tmax / dt)
    for i in range(r.choice([1, 2, 5, 12, 25])):
        dest = r.choice(ends) if r.random() < .2 else None
        x = W.addVehicle(r.choice(starts), dest, r.choice([0, 0, 0, dt * r.randrange(steps // 3)]), mode="taxi", name=f"taxi{i}")
        m.taxis.append(x)
        m.plan[x] = [dest] if dest else []
    m.c["background-vehicles"] += len(W.VEHICLES) - len(m.taxis)

    def extra_stop(x):
        n = r.choice(ends)
        q = n if r.random() < .5 else W.get_node(n)
        if m.plan[x] and r.random() < .4:
            k = r.randrange(len(m.plan[x]))
            x.add_dest(q, order=k)
            m.plan[x].insert(k + 1, n)
            m.c["tour-inserted"] += 1
        elif r.random() < .3:
            n2 = r.choice(ends)
            x.add_dests([q, n2])
            m.plan[x] += [n, n2]
        else:
            x.add_dest(q)
            m.plan[x].append(n)
        m.c["tours"] += 1

    def request(t):
        o, d = r.choice(ends), r.choice(ends)
        if o == d and r.random() < .7:
            d = r.choice(ends)
        m.add(o, d, t, **(dict(name=r.choice([f"r{len(m.reqs)}", 1000 + len(m.reqs)])) if r.random() < .3 else {}))

    for _ in range(r.choice([5, 15, 40])):
        request(round(r.uniform(0, tmax * .7), 2) if r.random() < .8 else 0)
    every, tours, late = r.choice([1, 2, 5, 13, 30]), r.random() < .3, r.random() < .5
    inside = r.random() < .5

    def serve():
        if tours and r.random() < .3:
            c = [x for x in m.taxis if x.state == "run" and not m.active[x]]
            if c:
                extra_stop(r.choice(c))
        if late and r.random() < .4:
            request(W.TIME + r.choice([0, 0, dt, 10 * dt]))
            m.c["late-requests"] += 1
        if kind in ("direct", "shared"):
            m.direct(kind == "shared")
        else:
            m.dispatch(kind, radius)

    W.user_function = m.step
    if inside:
        m.hook = lambda T: serve() if T % every == 0 else None
    with env.quiet():
        if inside and r.random() < .5:
            W.exec_simulation()
        else:
            while W.check_simulation_ongoing() and not m.v:
                W.exec_simulation(duration_t2=dt * (every if not inside else r.randint(1, 40)))
                if not inside and W.check_simulation_ongoing():
                    m.c["between-calls"] += 1
                    serve()
    if not m.v:
        m.judge("end")
        end(m, H, W)
    m.c["unserved"] += sum(q.state in ("waiting", "assigned") for q in m.reqs)
    m.c["onboard-at-end"] += sum(q.state == "onboard" for q in m.reqs)
    return dict(viol=m.v, count=dict(m.c), sig=m.h.hexdigest() if m.c["completed"] else None, sample=dict(seed=job["seed"], dispatcher=kind, taxis=len(m.taxis), requests=[(q.o, q.d, q.t, q.state, q.pick, q.drop) for q in m.reqs[:8]]))


def end(m, H, W):
    n = W.DELTAN
    done = [q for q in m.reqs if q.drop is not None]
    pick = [q for q in m.reqs if q.pick is not None]
    mean = lambda x: sum(x) / len(x) if x else 0
    want = dict(total_trips=len(m.reqs) * n, completed_trips=len(done) * n, average_waiting_time=mean([q.pick - q.t for q in pick]),
                average_invehicle_time=mean([q.drop - q.pick for q in done]), average_travel_time=mean([q.drop - q.t for q in done]))
    df = H.basic_to_pandas()
    for k, w in want.items():
        if abs(df[k].iloc[0] - w) > 1e-6 * (1 + abs(w)):
            m.bad("stats", f"basic statistics: {k} is {df[k].iloc[0]}, the observed events give {w}")
    if H.number_of_taxis != len(m.taxis) * n:
        m.bad("stats", f"number of taxis is {H.number_of_taxis}, {len(m.taxis)} platoons of {n} were added")
    if sorted(H.waiting_times) != sorted(q.pick - q.t for q in pick) or sorted(H.travel_times) != sorted(q.drop - q.t for q in done) or sorted(H.invehicle_times) != sorted(q.drop - q.pick for q in done):
        m.bad("stats", "the lists of waiting, travel and in-vehicle times differ from the observed events")
    tb = H.trips_to_pandas()
    if len(tb) != len(m.reqs):
        m.bad("stats", f"the table of trips has {len(tb)} rows for {len(m.reqs)} requests")
        return
    rows = Counter()
    exp = Counter()
    f = lambda x: None if x is None or x != x else round(float(x), 6)
    for _, w in tb.iterrows():
        rows[w["orig"], w["dest"], f(w["depart_time"]), f(w["get_taxi_time"]), f(w["arrival_time"]), f(w["travel_time"]), f(w["waiting_time"]), w["used_taxi"] if isinstance(w["used_taxi"], str) else None] += 1
    for q in m.reqs:
        exp[q.o, q.d, f(q.t), f(q.pick), f(q.drop), f(q.drop - q.t) if q.drop is not None else None, f(q.pick - q.t) if q.pick is not None else None, q.taxi.name if q.taxi else None] += 1
    if rows != exp:
        m.bad("stats", f"the table of trips differs from the observed events, e.g. {list((rows - exp).items())[:1]} instead of {list((exp - rows).items())[:1]}")
    names = Counter(q.tr.name for q in m.reqs)
    for q in m.reqs:
        if names[q.tr.name] > 1:
            m.bad("names", f"two requests are called {q.tr.name!r}")
            break
        if H.get_trip(q.tr.name) is not q.tr or H.get_trip(q.tr) is not q.tr:
            m.bad("names", f"get_trip({q.tr.name!r}) is another request")
    for x in m.taxis:
        ls = [e[1] for e in x.log_t_link if hasattr(e[1], "end_node")]
        for a, b in zip(ls, ls[1:]):
            m.c["taxi-link-changes"] += 1
            if a.end_node is not b.start_node:
                m.bad("connected", f"taxi {x.name} went from link {a.name} to link {b.name}, which does not start where it was")
    with contextlib.redirect_stdout(io.StringIO()):
        H.print_stats()
    m.c["stats-judged"] += 1
