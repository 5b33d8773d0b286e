"""Online oracle: an independent statement of the one-step law of the simulator.

`Monitor.observe(W)` is called at the end of every time step with the live world; it takes an engine-neutral snapshot through
public attributes and decides, against shadow state of its own (capacity credits, signal clock, queue order, link content,
cumulative counts, unused movement), which transitions were permitted or obligatory. Every rule is tagged with a property.
"""
import math
from collections import defaultdict, Counter

EPS = 1e-6
BIG = 1e9


class LS:
    __slots__ = ("name", "u", "kappa", "lanes", "length", "dpl", "cap_in", "cap_out", "rem_in", "rem_out", "prio", "sg", "start", "end",
                 "order", "cum_a", "cum_d", "spacing_ok", "tau", "n_in", "n_out", "gap", "obj", "closed_in", "closed_out", "toll")


class NS:
    __slots__ = ("name", "signal", "phase", "t", "cap", "lanes", "rem", "out", "inn", "queue", "obj")


class VS:
    __slots__ = ("name", "id", "orig", "dest", "dep", "dep_ts", "route", "prefer", "avoid", "trip_abort", "before", "mr", "x_old", "x_pre", "links",
                 "entry_t", "ended_at", "nodes", "obj", "entry_ts_link", "gen_step", "dist")


class Monitor:
    def __init__(self, spec, W, cpp, want=None):
        self.spec, self.W, self.cpp = spec, W, cpp
        self.viol = []            # (property, rule, detail)
        self.count = Counter()    # rule -> evaluations
        self.want = want
        self.T = -1
        self.prev = None
        self.hard = bool(spec["world"].get("hard_deterministic_mode"))
        self.deltan = spec["world"].get("deltan", 5)
        self.dt = self.deltan * spec["world"].get("reaction_time", 1)
        self.rt = spec["world"].get("reaction_time", 1)
        self.dead = False
        self.merge_stat = []      # (indicator-p, p(1-p))
        self.pending = []
        self.events = defaultdict(list)
        for e in spec.get("events", []):
            self.events[e["step"]].append(e)
        self.log = []             # per step: {veh: (state, link, x, v, lane)} as observed, for offline checkers
        self.keep_log = False
        self.keep_rows = False
        self.rows = defaultdict(list)   # vehicle -> expected log rows (T, state, link, x, v, lane, possible spacings)
        self.row_alt = {}
        self.ambiguous = set()
        self.trips = []           # observed entries: (veh, link, T) and exits
        self.entries = defaultdict(list)
        self.exits = defaultdict(list)
        self.phases = defaultdict(list)
        self.max_viol = 12
        self.ready = False

    # ---- reporting -------------------------------------------------------------------------------------------------
    def bad(self, prop, rule, msg):
        if len(self.viol) < self.max_viol:
            self.viol.append((prop, rule, f"T={self.T} {msg}"))

    def ok(self, rule, n=1):
        self.count[rule] += n

    # ---- static definition -----------------------------------------------------------------------------------------
    def start(self):
        """call once the scenario is defined (before the first step)"""
        W, spec = self.W, self.spec
        dn, dt = self.deltan, self.dt
        self.links, self.nodes = {}, {}
        self.late = {e["name"]: e for e in spec.get("events", []) if e["kind"] == "addveh"}
        for n in spec["nodes"]:
            s = NS()
            s.name = n["name"]
            s.signal = list(n.get("signal", [0]))
            s.phase, s.t = 0, 0
            cyc = sum(s.signal)
            if s.signal != [0]:
                off = cyc - (cyc - n["signal_offset_old"] if n.get("signal_offset_old") is not None else n.get("signal_offset", 0))
                i = 0
                while True:
                    if off < s.signal[i]:
                        s.phase, s.t = i, off
                        break
                    off -= s.signal[i]
                    i = (i + 1) % len(s.signal)
            s.cap = n.get("flow_capacity")
            s.lanes = n.get("number_of_lanes")
            if s.cap is not None and s.lanes is None:
                s.lanes = math.ceil(s.cap / 0.8)
            s.rem = BIG if s.cap is None else s.cap * dt
            s.out, s.inn, s.queue = [], [], []
            s.obj = W.get_node(n["name"])
            self.nodes[s.name] = s
        for l in spec["links"]:
            s = LS()
            s.name = l["name"]
            s.lanes = int(l.get("number_of_lanes", 1))
            s.length = l["length"]
            s.u = l.get("free_flow_speed", 20)
            s.kappa = l.get("jam_density", 0.2)
            if l.get("jam_density_per_lane") is not None:
                s.kappa = l["jam_density_per_lane"] * s.lanes
            s.tau = self.rt / s.lanes
            self._derive(s)
            cap = self._capacity(s)
            s.cap_out = l["capacity_out"] if l.get("capacity_out") is not None else 2 * cap
            s.cap_in = l["capacity_in"] if l.get("capacity_in") is not None else 2 * cap
            s.closed_in, s.closed_out = l.get("capacity_in") == 0, l.get("capacity_out") == 0
            s.rem_out = s.cap_out * dt
            s.rem_in = s.cap_in * dt if l.get("capacity_in") is not None else 2 * cap
            s.prio = l.get("merge_priority", 1)
            sg = l.get("signal_group", [0])
            s.sg = [sg] if isinstance(sg, int) else list(sg)
            s.start, s.end = l["start"], l["end"]
            s.order, s.cum_a, s.cum_d, s.spacing_ok, s.n_in, s.n_out = [], 0, 0, True, 0, 0
            s.obj = W.get_link(l["name"])
            s.toll = l.get("toll")
            self.links[s.name] = s
            self.nodes[s.start].out.append(s)
            self.nodes[s.end].inn.append(s)
        if spec["world"].get("adjust_node_capacity"):
            for s in self.nodes.values():
                if s.cap is None and s.inn and s.out:
                    s.cap = (max(self._capacity(l) for l in s.inn) + max(self._capacity(l) for l in s.out)) / 2
                    s.rem = s.cap * dt
                    if s.lanes is None:
                        s.lanes = math.ceil(s.cap / 0.8)
        self.vehs = {}
        self._sync_vehicles(first=True)
        self.prev = self._snap()
        self.ready = True
        for nm, (st, lk, x, v, lane, nx) in self.prev.items():
            if st != "home":
                self.bad("P01", "initial-state", f"vehicle {nm} starts in state {st}")

    def _derive(self, s):
        s.dpl = s.lanes / s.kappa
        s.gap = s.dpl * self.deltan

    def _capacity(self, s):
        w = 1 / s.tau / s.kappa
        return s.u * w * s.kappa / (s.u + w)

    def _sync_vehicles(self, first=False):
        W = self.W
        if len(W.VEHICLES) == len(self.vehs):
            return
        n_def = len(self.spec["vehicles"])
        names = list(W.VEHICLES.keys())
        defs = {}
        if first:
            # individually added vehicles are the last ones, in order of definition
            for nm, d in zip(names[len(names) - n_def:], self.spec["vehicles"]):
                defs[nm] = d
        for i, nm in enumerate(names):
            if nm in self.vehs:
                continue
            o = W.VEHICLES[nm]
            v = VS()
            v.name, v.id, v.obj = nm, o.id, o
            v.orig, v.dest = o.orig.name, o.dest.name
            v.dep_ts = o.departure_time
            v.dep = o.departure_time_in_second if self.cpp else o.departure_time * self.dt
            d = defs.get(nm) or self.late.get(nm) or {}
            v.route = d.get("route")
            v.prefer = d.get("prefer") or []
            v.avoid = d.get("avoid") or []
            v.trip_abort = d.get("trip_abort", 1)
            v.before = None
            v.mr, v.x_old, v.x_pre = 0.0, 0.0, 0.0
            v.links, v.entry_t, v.ended_at, v.nodes, v.gen_step, v.dist = [], [], None, [], None, 0.0
            self.vehs[nm] = v

    def _snap(self):
        out = {}
        if self.cpp:
            for nm, o in self.W.VEHICLES.items():
                c = o._cpp_vehicle
                st = o.state
                lk = c.link
                nx = c.route_next_link
                out[nm] = (st, lk.name if lk is not None else None, c.x, c.v, c.lane, nx.name if nx is not None else None)
        else:
            for nm, o in self.W.VEHICLES.items():
                lk, nx = o.link, getattr(o, "route_next_link", None)
                out[nm] = (o.state, lk.name if lk is not None else None, o.x, o.v, o.lane, nx.name if nx is not None else None)
        return out

    # ---- one step --------------------------------------------------------------------------------------------------
    def observe(self):
        if self.dead:
            return
        self.T += 1
        self._sync_vehicles()
        cur = self._snap()
        try:
            self._step(self.prev, cur)
        except _Abort:
            self.dead = True
        self.prev = cur
        if self.keep_log:
            self.log.append(cur)
        for e in self.events.get(self.T, ()):  # control events take effect from the next step
            self._shadow_event(e)

    def _shadow_event(self, e):
        k = e["kind"]
        if k == "u":
            s = self.links[e["link"]]
            for nm in s.order:      # the unused movement is a duration: in metres it scales with the speed
                self.vehs[nm].mr *= e["value"] / s.u
            s.u = e["value"]
        elif k == "kappa":
            s = self.links[e["link"]]
            if e["value"] < s.kappa:
                s.spacing_ok = False
            s.kappa = e["value"]
            self._derive(s)
        elif k == "cap_out":
            self.links[e["link"]].cap_out = e["value"]
        elif k == "cap_in":
            self.links[e["link"]].cap_in = e["value"]
        elif k == "prio":
            self.links[e["link"]].prio = e["value"]
        elif k == "sg":
            self.links[e["link"]].sg = list(e["value"])
        elif k == "toll":
            self.links[e["link"]].toll = e["toll"]
        elif k == "node_cap":
            n = self.nodes[e["node"]]
            n.cap = e["value"]
            if n.cap is None:
                n.rem = BIG
                self.ok("capacity-lifted")
                return
            if n.rem > BIG / 2:
                self.ok("capacity-on-unlimited-node")
                n.rem = n.cap * self.dt
            if n.lanes is None:
                n.lanes = math.ceil(n.cap / 0.8)
        elif k == "signal":
            n = self.nodes[e["node"]]
            n.signal = list(e["signal"])
            if e.get("reset"):
                n.phase, n.t = 0, 0
            g = {}
            for i, ls in enumerate(e.get("groups", ())):
                for l in ls:
                    g.setdefault(l, []).append(i)
            for l, x in g.items():
                self.links[l].sg = x
                self.ok("plan-with-groups")
        elif k in ("veh_avoid", "veh_prefer", "veh_route"):
            v = self.vehs[e["veh"]]
            self.ok(k)
            if v.before is None or v.before[0] != self.T + 1:
                v.before = (self.T + 1, v.avoid, v.prefer)      # the choice of the vehicles that wait at a link end is made already
            if k == "veh_route":
                if self.prev[e["veh"]][0] == "home":
                    v.route = list(e["route"])
            elif k == "veh_avoid":
                v.avoid = list(e["links"])
            else:
                v.prefer = list(e["links"])
        elif k == "phase":
            n = self.nodes[e["node"]]
            n.phase, n.t = e["phase"], e["t"]

    def _step(self, P, C):
        T, dn, dt = self.T, self.deltan, self.dt
        links, nodes, V = self.links, self.nodes, self.vehs
        bad, ok = self.bad, self.ok
        # -- credits and signals at the start of the step
        for s in links.values():
            if s.rem_out < dn * s.lanes:
                s.rem_out += s.cap_out * dt
            if s.rem_in < dn * s.lanes:
                s.rem_in += s.cap_in * dt
        for n in nodes.values():
            if len(n.signal) > 1:
                if n.t > n.signal[n.phase]:
                    n.phase = (n.phase + 1) % len(n.signal)
                    n.t = 0
                n.t += dt
            if n.cap is not None:
                if n.rem < dn * n.lanes:
                    n.rem += n.cap * dt
        # -- classify transitions
        gens, xfers, ends, ready = [], [], [], []
        unknown_gen_end = []
        ORDER = {"home": 0, "wait": 1, "run": 2, "end": 3, "abort": 3}
        for nm, c in C.items():
            p = P.get(nm)
            if p is None:
                p = ("home", None, 0, 0, 0, None)
            ps, cs = p[0], c[0]
            if cs not in ORDER:
                bad("P01", "state-domain", f"vehicle {nm} has state {cs!r}")
                continue
            if ps == cs == "home" or (ps == cs and ps in ("end", "abort")):
                continue
            if ORDER[cs] < ORDER[ps] or (ORDER[ps] == 3 and cs != ps):
                bad("P01", "lifecycle", f"vehicle {nm} went {ps}->{cs}")
                raise _Abort
            if ps == "home":
                if cs == "wait":
                    ready.append(nm)
                else:
                    bad("P01", "lifecycle", f"vehicle {nm} went {ps}->{cs} in one step")
                    raise _Abort
                continue
            if ps == "wait":
                if cs == "wait":
                    continue
                if cs == "run":
                    gens.append((nm, c[1]))
                else:
                    unknown_gen_end.append(nm)
                continue
            # ps == run
            if cs == "run":
                if c[1] != p[1]:
                    xfers.append((nm, p[1], c[1]))
            else:
                L = links[p[1]]
                v = V[nm]
                at_end = abs(p[2] - L.length) < 1e-9
                if at_end and L.end != v.dest and not (not nodes[L.end].out):
                    # crossed the node and ended on the next link in the same step
                    if p[5] is None or p[5] not in links:
                        bad("P11", "end-away-from-destination", f"vehicle {nm} (dest {v.dest}) left the network at the end of {L.name}")
                        raise _Abort
                    xfers.append((nm, p[1], p[5]))
                    ends.append((nm, p[5]))
                else:
                    ends.append((nm, p[1]))
        self.count["transitions"] += len(gens) + len(xfers) + len(ends) + len(ready)
        # vehicles that entered and finished their first link within the step
        if unknown_gen_end:
            used = Counter(l for _, l in gens)
            used.update(l for _, _, l in xfers)
            for nm in unknown_gen_end:
                v = V[nm]
                cands = [l for l in nodes[v.orig].out if (v.route is None or v.route[0] == l.name) and (l.end == v.dest or not nodes[l.end].out)]
                open_ = [l for l in cands if self._cum(l, "a") - l.cum_a > dn * used[l.name] + EPS]
                pickd = open_[0] if open_ else None
                if len(open_) > 1:
                    # parallel links: the vehicle's own link history says which one it took
                    own = self._logged_links(nm)
                    pickd = next((l for l in open_ if l.name in own), pickd)
                if pickd is None:
                    bad("P01", "vanished", f"vehicle {nm} went wait->{C[nm][0]} without entering a link that leads to its destination")
                    raise _Abort
                used[pickd.name] += 1
                if len(cands) > 1:
                    self.ambiguous.add(nm)
                gens.append((nm, pickd.name))
                ends.append((nm, pickd.name))
        ended = {nm for nm, _ in ends}
        end_set = set(ends)

        # -- home -> wait
        n_home_due = 0
        for nm, c in C.items():
            if c[0] == "home":
                v = V[nm]
                if T * dt >= v.dep - 1e-9 and T >= v.dep_ts:
                    bad("P08", "late-ready", f"vehicle {nm} (departure time {v.dep}) still at home at the end of the step at {T*dt}")
                n_home_due += 1
        for nm in sorted(ready, key=lambda x: V[x].id):
            v = V[nm]
            ok("ready")
            if T < v.dep_ts or (T + 1) * dt < v.dep - 1e-9:
                bad("P08", "early-departure", f"vehicle {nm} leaves home at {T*dt} before its departure time {v.dep}")
            if v.orig not in nodes:
                raise _Abort
        # -- per-link entries in order of lane cycle
        ent = defaultdict(list)   # link -> [(veh, kind, from)]
        for nm, l in gens:
            ent[l].append((nm, "gen", None))
        for nm, a, b_ in xfers:
            ent[b_].append((nm, "xfer", a))
        out_x = defaultdict(list)
        for nm, a, b_ in xfers:
            out_x[a].append(nm)
        out_e = defaultdict(list)
        for nm, l in ends:
            out_e[l].append(nm)

        # -- generation: FIFO, origin, permitted links
        gen_by_node = defaultdict(list)
        for nm, l in gens:
            gen_by_node[V[nm].orig].append(nm)
            if links[l].start != V[nm].orig:
                bad("P11", "wrong-origin", f"vehicle {nm} with origin {V[nm].orig} departs on link {l} which starts at {links[l].start}")
        for nn, g in gen_by_node.items():
            n = nodes[nn]
            ok("generated", len(g))
            if set(g) != set(n.queue[:len(g)]):
                bad("P08", "origin-fifo", f"node {nn}: departing {g} but the queue starts with {n.queue[:len(g)+2]}")
                raise _Abort
            if len(g) > sum(l.lanes for l in n.out):
                bad("P08", "departures-per-step", f"node {nn}: {len(g)} departures in a step with {sum(l.lanes for l in n.out)} lanes")
        # lanes: split generated/transferred orders per link
        entry_order = {}
        for l, es in ent.items():
            s = links.get(l)
            if s is None:
                bad("P01", "unknown-link", f"vehicles {es} on unknown link {l}")
                raise _Abort
            # generated vehicles enter first (generation precedes transfer), in queue order
            g = [e for e in es if e[1] == "gen"]
            qpos = {nm: i for i, nm in enumerate(nodes[s.start].queue)}
            g.sort(key=lambda e: qpos.get(e[0], 1 << 30))
            x = [e for e in es if e[1] == "xfer"]
            entry_order[l] = (g, x)
        # resolve the order of same-step entries by the lane cycle (the lane of a finished vehicle stays readable)
        for l, (g, x) in entry_order.items():
            s = links[l]
            pos = {}
            if not self.cpp:
                pos = {o.name: i for i, o in enumerate(s.obj.vehicles)}
            lane0 = (P[s.order[-1]][4] + 1) % s.lanes if s.order else 0
            res, lane = [], lane0
            for e in g:
                res.append((e, lane))
                lane = (lane + 1) % s.lanes
            starts = [lane]
            if not g and s.order and len(out_x[l]) + len(out_e[l]) >= len(s.order) and lane != 0:
                starts.append(0)        # the link may have emptied earlier in the step: the cycle restarts
            good = [e for e, ln in res if C[e[0]][4] != ln]
            sols = []
            for st in starts:
                o = sorted(x, key=lambda e: (C[e[0]][4] - st) % s.lanes)
                if [(C[e[0]][4] - st) % s.lanes for e in o] == list(range(len(o))):
                    sols.append([(e, (st + i) % s.lanes) for i, e in enumerate(o)])
            if len(sols) > 1:   # prefer the reading that agrees with the order of leaving / the order held by the link
                first = self._emptied_first(s, P, out_x[l], out_e[l])
                def rank(sol):
                    if self.cpp:
                        return (sol[0][1] == 0) != first
                    ks = [(0 if (e[0], l) in end_set else 1, pos.get(e[0], 0)) for e, _ in sol]
                    return ks != sorted(ks)
                sols.sort(key=rank)
            if good or not sols:
                bad("P03", "lane-assignment", f"link {l}: entries {[(e[0], C[e[0]][4]) for e in g + x]} do not follow the lane cycle (start {starts}, {s.lanes} lanes)")
                xs = sorted(x, key=lambda e: (e[0] not in ended, pos.get(e[0], 0)))
                entry_order[l] = [(e, C[e[0]][4]) for e in g + xs]
            else:
                entry_order[l] = res + sols[0]
            ok("lane-assigned", len(entry_order[l]))

        # -- capacity credits, admission spacing, signals, route constraints per entry
        lane_of = {}
        x_pre = {}
        x_alt = self.x_alt = {}
        for nm, c in C.items():
            if P.get(nm, ("home",))[0] == "run":
                x_pre[nm] = P[nm][2]
                lane_of[nm] = P[nm][4]
        new_order = {}
        node_cross = Counter()
        for l, s in links.items():
            cur_list = list(s.order)
            for (nm, kind, src), lane in entry_order.get(l, ()):  # in order of entry
                v = V[nm]
                s.n_in += 1
                # P03 admission: the vehicle `lanes` positions ahead must have cleared the entrance
                if len(cur_list) >= s.lanes:
                    ahead = cur_list[-s.lanes]
                    gone = (ahead in out_x[l] or ahead in out_e[l])
                    xa = x_pre.get(ahead, 0.0)
                    ok("admission")
                    if xa is not None and not (xa > s.gap - EPS) and not gone:
                        bad("P03", "admission-spacing", f"link {l}: {nm} admitted while {ahead} of the same lane is at {xa:.6g} <= {s.gap:.6g}")
                lane_of[nm] = lane
                # P04 inflow credit
                ok("inflow")
                if s.rem_in < dn - EPS:
                    bad("P04", "inflow-capacity", f"link {l}: {nm} admitted with inflow credit {s.rem_in:.6g} < {dn} (capacity_in {s.cap_in})")
                s.rem_in -= dn
                if s.closed_in and s.cap_in == 0:
                    bad("P04", "closed-link-entry", f"link {l} has capacity_in 0 but {nm} entered")
                self.entries[l].append((T, nm))
                if kind == "gen":
                    x_pre[nm] = 0.0
                    v.gen_step = T
                    if T * dt < v.dep - 1e-9:
                        bad("P08", "early-departure", f"vehicle {nm} enters {l} at {T*dt} before its departure time {v.dep}")
                else:
                    a = links[src]
                    n = nodes[a.end]
                    p = P[nm]
                    self.count["transferred"] += 1
                    # P07/P11 connectivity and chosen link
                    if a.end != s.start:
                        bad("P07", "disconnected-transfer", f"vehicle {nm} moved from {src} (ends {a.end}) to {l} (starts {s.start})")
                        bad("P11", "disconnected-transfer", f"vehicle {nm} moved from {src} (ends {a.end}) to {l} (starts {s.start})")
                    if p[5] != l:
                        bad("P07", "unchosen-link", f"vehicle {nm} moved from {src} to {l} but had chosen {p[5]}")
                    if abs(p[2] - a.length) > 1e-6:
                        bad("P07", "transfer-before-end", f"vehicle {nm} left {src} at x={p[2]:.6g} of {a.length}")
                        bad("P02", "transfer-before-end", f"vehicle {nm} left {src} at x={p[2]:.6g} of {a.length}")
                    # P06 signal
                    ok("crossing")
                    if len(n.signal) > 1:
                        ok("crossing-signalised")
                        if n.phase not in a.sg:
                            bad("P06", "red-crossing", f"vehicle {nm} crossed {n.name} from {src} (groups {a.sg}) in phase {n.phase}")
                    # P04 outflow credit
                    if a.rem_out < dn - EPS:
                        bad("P04", "outflow-capacity", f"link {src}: {nm} discharged with outflow credit {a.rem_out:.6g} < {dn} (capacity_out {a.cap_out})")
                    a.rem_out -= dn
                    if a.closed_out and a.cap_out == 0:
                        bad("P04", "closed-link-exit", f"link {src} has capacity_out 0 but {nm} was transferred")
                    # P05 node credit
                    if n.cap is not None:
                        ok("node-capacity")
                        if n.rem < dn - EPS:
                            bad("P05", "node-capacity", f"node {n.name}: {nm} transferred with credit {n.rem:.6g} < {dn} (flow_capacity {n.cap})")
                        n.rem -= dn
                    node_cross[n.name] += 1
                    # unused movement carried over
                    res = max(0.0, min(v.mr * s.u / a.u, s.length))
                    lead = cur_list[-s.lanes] if len(cur_list) >= s.lanes else None
                    if lead is not None:
                        lim = min(res, max(V[lead].x_old - s.gap, 0.0))
                        if (lead in out_x[l] or lead in out_e[l]) and lim < res:
                            x_alt[nm] = [lim, res]   # the leader left within the step, before or after this entry
                        res = lim
                    x_pre[nm] = res
                    v.mr = 0.0
                # route constraints
                self._route_rules(v, s, kind, src)
                v.links.append(l)
                v.entry_t.append(T)
                cur_list.append(nm)
            new_order[l] = cur_list
        # -- exits are a prefix (FIFO)
        for l, s in links.items():
            ex = out_x[l] + out_e[l]
            lst = new_order[l]
            if ex:
                ok("fifo", len(ex))
                if set(ex) != set(lst[:len(ex)]):
                    bad("P03", "fifo", f"link {l}: left {ex}, but the first in are {lst[:len(ex)+1]}")
                    new_order[l] = [x for x in lst if x not in set(ex)]
                    lst = ex
                else:
                    new_order[l] = lst[len(ex):]
                for nm in lst[:len(ex)]:
                    self.exits[l].append((T, nm))
            s.n_out += len(ex)
        # -- trip ends
        for nm, l in ends:
            v, s = V[nm], links[l]
            ok("trip-end")
            v.ended_at = T
            if C[nm][0] == "end":
                if s.end != v.dest:
                    bad("P11", "end-away-from-destination", f"vehicle {nm} (dest {v.dest}) completed its trip at {s.end}")
            else:
                ok("trip-abort")
                if not v.trip_abort:
                    bad("P11", "abort-not-wanted", f"vehicle {nm} aborted at {s.end} although trip_abort=0")
                if nodes[s.end].out or s.end == v.dest:
                    bad("P11", "abort-without-dead-end", f"vehicle {nm} aborted at {s.end}, which is {'its destination' if s.end == v.dest else 'not a dead end'}")
        lead_of, gone_before = {}, set()
        # -- leaders (same lane, ahead, still on the link when vehicles move)
        for l, s in links.items():
            lst = list(s.order) + [e[0][0] for e in entry_order.get(l, ())]
            gone_x = set(out_x[l])
            maybe_gone = set()      # trips that were finished before the vehicles moved: waiting at the link end, nobody ahead any more
            for nm in s.order:
                if nm in gone_x:
                    continue
                if (nm, l) in end_set and self._at_end(P[nm][2], s.length):
                    maybe_gone.add(nm)
                else:
                    break
            gone_before |= maybe_gone
            last = {}
            for nm in lst:
                if nm in gone_x:
                    continue
                lane = lane_of[nm]
                lead = last.get(lane)
                last[lane] = nm
                self._motion(nm, s, lead, lead in maybe_gone if lead else False, x_pre, P, C, nm in ended, l)
                if self.keep_rows:
                    lead_of[nm] = (lead, l)
            # spacing after the step
            if s.spacing_ok and new_order[l]:
                lastx = {}
                for nm in new_order[l]:
                    c = C[nm]
                    if c[1] != l:
                        continue
                    if c[4] in lastx:
                        ok("spacing")
                        if lastx[c[4]] - c[2] < s.gap - 1e-6 * max(1.0, s.gap):
                            bad("P03", "lane-spacing", f"link {l} lane {c[4]}: {nm} at {c[2]:.6g} only {lastx[c[4]]-c[2]:.6g} behind the vehicle ahead (minimum {s.gap:.6g})")
                    lastx[c[4]] = c[2]
                if len(new_order[l]) > s.lanes * (math.floor(s.length / s.gap + 1e-9) + 1):
                    bad("P03", "storage", f"link {l} stores {len(new_order[l])} platoons")
        if self.keep_rows:
            self._rows_step(P, C, gens, xfers, ends, x_pre, lane_of, lead_of, gone_before)
        # -- trip completion is immediate
        for l, s in links.items():
            if s.order:
                h = s.order[0]
                p, c = P[h], C[h]
                if self._at_end(p[2], s.length) and s.end != V[h].dest and not nodes[s.end].out and c[0] == "run" and c[1] == l:
                    if V[h].trip_abort:
                        bad("P11", "late-abort", f"vehicle {h} stays at the head of {l} in front of the dead end {s.end}")
                    else:
                        ok("stays-at-dead-end")
                if self._at_end(p[2], s.length) and s.end == V[h].dest and c[0] == "run" and c[1] == l:
                    bad("P11", "late-trip-end", f"vehicle {h} stays on {l} although it had reached its destination {s.end} at the head of the link")
        self._out_e = out_e
        self._work_conservation(P, C, entry_order, out_x, node_cross, x_pre)
        self._generation_obligation(P, C, entry_order, x_pre)
        # -- commit
        for l, s in links.items():
            s.order = new_order[l]
            s.cum_a += dn * len(entry_order.get(l, ()))
            s.cum_d += dn * (len(out_x[l]) + len(out_e[l]))
        for nn, g in gen_by_node.items():
            nodes[nn].queue = nodes[nn].queue[len(g):]
        for nm in sorted(ready, key=lambda x: V[x].id):
            nodes[V[nm].orig].queue.append(nm)
        for nm in x_pre:
            V[nm].x_old = x_pre[nm]
        self._global_checks(C, ready)
        if len(self.viol) >= self.max_viol:
            raise _Abort

    # ---- pieces ----------------------------------------------------------------------------------------------------
    def _route_rules(self, v, s, kind, src):
        ok, bad = self.ok, self.bad
        nodes = self.nodes
        if v.route is not None:
            k = len(v.links)
            ok("specified-route")
            if k >= len(v.route) or v.route[k] != s.name:
                bad("P11", "specified-route", f"vehicle {v.name} with route {v.route} took {s.name} as its link number {k}")
            return
        avoid, prefer = v.avoid, v.prefer
        if kind == "xfer" and v.before and v.before[0] == self.T:
            _, avoid, prefer = v.before
        if avoid:
            ok("links-avoid")
            if s.name in avoid:
                bad("P11", "links-avoid", f"vehicle {v.name} uses avoided link {s.name}")
        outs = [o.name for o in nodes[s.start].out]
        pref = [o for o in outs if o in prefer]
        if pref:
            ok("links-prefer")
            if s.name not in pref and not set(pref) <= set(avoid):
                bad("P11", "links-prefer", f"vehicle {v.name} prefers {pref} but takes {s.name}")
        if self.spec["world"].get("no_cyclic_routing") and kind == "xfer":
            allowed = [o for o in nodes[s.start].out if (not pref or o.name in pref) and o.name not in avoid]
            seen = {self.links[x].start for x in v.links}
            free = [o for o in allowed if o.end not in seen]
            if free:
                ok("no-cyclic")
                if s.end in seen:
                    bad("P11", "cyclic-route", f"vehicle {v.name} returns to {s.end} over {s.name} although {[o.name for o in free]} leads to unvisited nodes")

    def _motion(self, nm, s, lead, lead_maybe_gone, x_pre, P, C, is_end, l):
        v = self.vehs[nm]
        c = C[nm]
        dt = self.dt
        x0 = x_pre.get(nm)
        tol = 1e-7 * max(1.0, s.length) + 1e-7
        ended_here_before_motion = is_end and P.get(nm, ("",))[0] == "run" and P[nm][1] == l and abs(P[nm][2] - s.length) < 1e-9
        if ended_here_before_motion:
            return
        lx = x_pre.get(lead) if lead is not None else None
        combos = []
        for x0 in self.x_alt.get(nm, [x0]):
            for q in ([None] if lead is None or lead_maybe_gone else [lx]):
                t = x0 + s.u * dt
                if q is not None:
                    t = min(t, max(x0, q - s.gap))
                combos.append((x0, t))
        alts = [t for _, t in combos]
        if nm in self.x_alt and not is_end:
            x0 = x_pre[nm] = min(combos, key=lambda z: abs(min(z[1], s.length) - c[2]) + abs((c[2] - z[0]) / dt - c[3]) * dt)[0]
            alts = [t for z, t in combos if z == x0]
        self.ok("motion")
        if is_end:
            if all(t < s.length - tol for t in alts):
                self.bad("P11", "end-before-link-end", f"vehicle {nm} finished on {l} though it can only have reached x={max(alts):.6g} of {s.length}")
            return
        obs = c[2]
        best = min(alts, key=lambda t: abs(min(t, s.length) - obs))
        exp = min(best, s.length)
        if abs(exp - obs) > tol:
            self.bad("P02", "car-following", f"vehicle {nm} on {l}: x {x0:.9g} -> {obs:.9g}, the law gives {exp:.9g} (u={s.u}, gap={s.gap:.6g}, leader {lead} at {lx})")
        ev = (obs - x0) / dt
        if abs(ev - c[3]) > 1e-7 * max(1.0, s.u):
            self.bad("P02", "speed", f"vehicle {nm} on {l}: reported speed {c[3]:.9g}, displacement/time {ev:.9g}")
        if c[3] < -1e-9 or c[3] > s.u * (1 + 1e-9) + 1e-9:
            self.bad("P02", "speed-range", f"vehicle {nm} on {l}: speed {c[3]} with free-flow speed {s.u}")
        if obs < -1e-9 or obs > s.length + 1e-9:
            self.bad("P02", "position-range", f"vehicle {nm} on {l}: x={obs} on a link of length {s.length}")
        if best > s.length:
            v.mr = best - s.length
        v.dist += obs - x0

    def _rows_step(self, P, C, gens, xfers, ends, x_pre, lane_of, lead_of, gone_before):
        """the state of every vehicle when vehicles are updated (after generation and transfer, before the movement of this step)"""
        T, dt = self.T, self.dt
        gen, xf, en = dict(gens), {n: b for n, a, b in xfers}, dict(ends)
        for nm, c in C.items():
            p = P.get(nm) or ("home", None, 0, 0, 0, None)
            R = self.rows[nm]
            if p[0] in ("end", "abort"):
                continue
            if p[0] == "home":
                R.append((T, "home", None, -1, -1, -1, None))
                continue
            if p[0] == "wait" and nm not in gen:
                R.append((T, "wait", None, -1, -1, -1, None))
                continue
            if nm in gen:
                l, v = gen[nm], self.links[gen[nm]].u
            elif nm in xf:
                l, v = xf[nm], p[3] + x_pre[nm] / dt
            else:
                l, v = p[1], p[3]
            if nm not in gone_before:
                sp = {-1.0}
                ld = lead_of.get(nm, (None, l))[0]
                if ld is not None:
                    sp.add(x_pre[ld] - x_pre[nm])
                    if C[ld][1] == l:
                        sp.add(C[ld][2] - x_pre[nm])
                if nm in self.x_alt and nm in en:   # the position at entry is not observable: either reading is consistent
                    self.row_alt[nm, len(R)] = [(x, p[3] + x / dt) for x in self.x_alt[nm]]
                    sp.update(x_pre[ld] - x for x in self.x_alt[nm] if ld is not None)
                R.append((T, "run", l, x_pre[nm], v, lane_of[nm], tuple(sp)))
            if nm in en:
                R.append((T, c[0], None, -1, -1, -1, None))

    def _x_at(self, P, x_pre, nm, l):
        """position on link l at the time vehicles are admitted"""
        p = P.get(nm)
        return p[2] if p is not None and p[1] == l else x_pre.get(nm, 0.0)

    def _emptied_first(self, s, P, ox, oe):
        """whether the vehicles leaving s in this step left it before others entered it (nodes act in creation order)"""
        if not set(s.order) <= set(ox) | set(oe):
            return False
        if any(not self._at_end(P[x][2], s.length) for x in oe if x in s.order):
            return False
        return self.nodes[s.end].obj.id < self.nodes[s.start].obj.id

    def _at_end(self, x, length):
        return abs(x - length) < 1e-9

    def _work_conservation(self, P, C, entry_order, out_x, node_cross, x_pre):
        dn = self.deltan
        heads = defaultdict(list)  # outlink -> [(veh, inlink)]
        for a in self.links.values():
            if not a.order:
                continue
            h = a.order[0]
            p = P[h]
            v = self.vehs[h]
            if p[0] != "run" or not self._at_end(p[2], a.length) or p[5] is None or a.end == v.dest or not self.nodes[a.end].out:
                continue
            heads[p[5]].append((h, a))
        # the vehicle that became the head of its link when those before it, bound for the same link, crossed in this step
        seconds = defaultdict(list)
        xto = {e[0]: l for l, es in entry_order.items() for e, _ in es if e[1] == "xfer"}
        for a in self.links.values():
            k = len(out_x[a.name])
            if k == 0 or k >= len(a.order) or self._out_e.get(a.name):
                continue
            h = a.order[k]
            p = P[h]
            if p[0] != "run" or not self._at_end(p[2], a.length) or p[5] is None or a.end == self.vehs[h].dest or not self.nodes[a.end].out:
                continue
            if all(xto.get(x) == p[5] and P[x][5] == p[5] for x in a.order[:k]):
                seconds[p[5]].append((h, a))
        for o, hs in heads.items():
            s = self.links.get(o)
            if s is None:
                continue
            n = self.nodes[s.start]
            moved = [e for e, lane in entry_order.get(o, ()) if e[1] == "xfer"]
            moved_names = {e[0] for e in moved}
            gens = [e for e, lane in entry_order.get(o, ()) if e[1] == "gen"]
            K = len(moved)
            elig = []
            for h, a in hs:
                green = len(n.signal) <= 1 or n.phase in a.sg
                # outflow credit before this step's discharge of a
                credit = a.rem_out + dn * len(out_x[a.name])
                if green and credit >= dn + EPS:
                    elig.append((h, a))
            stay = [(h, a) for h, a in elig if h not in moved_names]
            # merge priorities
            if moved and stay:
                for h, a in stay:
                    for e in moved:
                        b = self.links[e[2]]
                        if b is a:
                            continue
                        self.ok("merge-contest")
                        if self.hard and b.prio < a.prio - 1e-12:
                            self.bad("P07", "merge-priority-hard", f"node {n.name}: {e[0]} from {b.name} (priority {b.prio}) served although {h} on {a.name} (priority {a.prio}) was ready for {o}")
                        if not self.hard and b.prio == 0 and a.prio > 0:
                            self.bad("P07", "merge-priority-zero", f"node {n.name}: {e[0]} from zero-priority {b.name} served although {h} on {a.name} (priority {a.prio}) was ready for {o}")
            if not self.hard and s.lanes == 1 and K == 1 and len(elig) >= 2:
                w = moved[0]
                if any(h == w[0] for h, a in elig):
                    tot = sum(a.prio for h, a in elig)
                    pr = {h: (a.prio / tot if tot > 0 else 1 / len(elig)) for h, a in elig}
                    top = max(elig, key=lambda z: (z[1].prio, z[1].name))[0]
                    p = pr[top]
                    if 0 < p < 1:
                        same = len({a.prio for _, a in elig}) == 1
                        self.merge_stat.append((("same" if same else "diff"), (1.0 if w[0] == top else 0.0) - p, p * (1 - p)))
            for h, a in hs:
                if h in moved_names:
                    self.ok("served-head")
                    if len(n.signal) == 1 and n.phase not in a.sg:
                        self.ok("single-phase-passed")
            stay2 = [(h, a) for h, a in seconds.get(o, ()) if (len(n.signal) <= 1 or n.phase in a.sg) and a.rem_out >= dn + EPS]
            if stay2:
                self.ok("second-head")
            stay = stay + stay2
            # idle capacity
            if stay and K < s.lanes and s.rem_in >= dn + EPS and (n.cap is None or n.rem >= dn + EPS):
                lst = list(s.order) + [e[0] for e in gens]
                room = True
                for j in range(K + 1):
                    idx = s.lanes - j
                    if len(lst) + j < s.lanes:
                        continue
                    if idx > len(lst):
                        continue
                    xa = self._x_at(P, x_pre, lst[-idx], o)
                    if xa is None or not xa > s.gap + 1e-6:
                        room = False
                        break
                self.ok("blocked-head" if not room else "free-head")
                if room:
                    h, a = stay[0]
                    self.bad("P07", "idle-capacity", f"node {n.name}: {h} waits at the head of {a.name} for {o}, which has room, credit and green")
                    if len(n.signal) > 1 or n.phase not in a.sg:
                        self.bad("P06", "held-on-green", f"node {n.name}: {h} waits at the head of {a.name} for {o} in green phase {n.phase}, which has room and credit")

    def _generation_obligation(self, P, C, entry_order, x_pre):
        dn = self.deltan
        for n in self.nodes.values():
            if not n.queue or not n.out:
                continue
            h = n.queue[0]
            v = self.vehs[h]
            if v.route is not None:
                cand = [self.links[v.route[0]]]
            else:
                cand = list(n.out)
                pr = [l for l in cand if l.name in v.prefer]
                cand = pr or cand
                cand = [l for l in cand if l.name not in v.avoid]
            if len(cand) != 1:
                continue
            s = cand[0]
            if C[h][0] != "wait":
                continue
            ents = len(entry_order.get(s.name, ()))
            room = len(s.order) < s.lanes or self._x_at(P, x_pre, s.order[-s.lanes], s.name) > s.gap + 1e-6
            credit = s.rem_in + dn * ents
            self.ok("queue-head")
            if room and credit >= dn + EPS:
                # the head of the queue is tried before any transfer onto the link
                self.bad("P08", "held-at-origin", f"node {n.name}: {h} waits although its only permitted link {s.name} has room and inflow credit")

    def _logged_links(self, nm):
        """Names of the links on the vehicle's own record (empty where the record does not exist)."""
        try:
            o = self.W.VEHICLES[nm]
            if self.cpp:
                byid = {l.obj._cpp_link.id: l.name for l in self.links.values()}
                return {byid[i] for i in o._cpp_vehicle.log_link[-3:] if i in byid}
            return {l.name for _, l in o.log_t_link[-2:] if hasattr(l, "name")}
        except (AttributeError, KeyError, IndexError):
            return set()

    def _cum(self, s, which):
        o = s.obj
        if self.cpp:
            arr = o._cpp_link.cum_arrival if which == "a" else o._cpp_link.cum_departure
            return arr[self.T] if self.T < len(arr) else arr[-1]
        arr = o.cum_arrival if which == "a" else o.cum_departure
        return arr[-1]

    def signal_logs(self):
        """the recorded signal log against the phases that were in force"""
        if self.dead:
            return
        for nn, n in self.nodes.items():
            log = list(n.obj.signal_log)
            if len(log) != self.T + 1:
                self.bad("P06", "signal-log", f"node {nn}: {len(log)} entries in the signal log after {self.T + 1} steps")
                continue
            for T, ph in self.phases.get(nn, ()):
                self.ok("signal-log")
                if log[T] != ph:
                    self.bad("P06", "signal-log", f"node {nn}: the signal log says phase {log[T]} at step {T}, the plan gives {ph}")
                    break

    def _global_checks(self, C, ready):
        T, W, dn, dt = self.T, self.W, self.deltan, self.dt
        bad, ok = self.bad, self.ok
        links, nodes = self.links, self.nodes
        # occupancy
        on = defaultdict(set)
        wait = defaultdict(set)
        cnt = Counter()
        for nm, c in C.items():
            cnt[c[0]] += 1
            if c[0] == "run":
                if c[1] is None:
                    bad("P01", "running-without-link", f"vehicle {nm} runs on no link")
                else:
                    on[c[1]].add(nm)
            elif c[1] is not None and c[0] != "run":
                bad("P01", "link-without-running", f"vehicle {nm} in state {c[0]} is attached to link {c[1]}")
            if c[0] == "wait":
                wait[self.vehs[nm].orig].add(nm)
        ok("vehicle-states", len(C))
        if len(C) != len(self.vehs):
            bad("P01", "vehicle-set", f"{len(self.vehs)} vehicles were created, {len(C)} are known to the world")
        for l, s in links.items():
            if on[l] != set(s.order):
                bad("P01", "link-content", f"link {l}: vehicles on it {sorted(on[l])}, balance of entries and exits {s.order}")
            if not self.cpp:
                names = [x.name for x in s.obj.vehicles]
                if len(names) != len(set(names)) or set(names) != on[l]:
                    bad("P01", "link-list", f"link {l} holds {names}, running there are {sorted(on[l])}")
                elif names != s.order:
                    bad("P03", "link-order", f"link {l} holds {names}, entry order is {s.order}")
            else:
                k = s.obj._cpp_link.vehicle_count
                if k != len(on[l]):
                    bad("P01", "link-list", f"link {l} holds {k} vehicles, running there are {len(on[l])}")
            # cumulative curves
            a, d = self._cum(s, "a"), self._cum(s, "d")
            ok("curves")
            if abs(a - s.cum_a) > EPS:
                bad("P09", "cum-arrival", f"link {l}: cumulative arrivals {a}, vehicles that entered {s.cum_a}")
            if abs(d - s.cum_d) > EPS:
                bad("P09", "cum-departure", f"link {l}: cumulative departures {d}, vehicles that left {s.cum_d}")
            if abs(a - d - dn * len(on[l])) > EPS:
                bad("P09", "curve-difference", f"link {l}: arrivals-departures {a-d}, vehicles on the link {dn*len(on[l])}")
            if abs(s.obj.num_vehicles - dn * len(on[l])) > EPS and not getattr(self, "stale_num_ok", False):
                if self._live_queries:
                    bad("P09", "num_vehicles", f"link {l}: num_vehicles {s.obj.num_vehicles}, actual {dn*len(on[l])}")
        for nn, n in nodes.items():
            if wait[nn] != set(n.queue):
                bad("P01", "queue-content", f"node {nn}: waiting {sorted(wait[nn])}, balance of demand and departures {n.queue}")
            if not self.cpp:
                names = [x.name for x in n.obj.generation_queue]
                if len(names) != len(set(names)) or set(names) != wait[nn]:
                    bad("P01", "queue-list", f"node {nn} queues {names}, waiting there are {sorted(wait[nn])}")
                elif names != n.queue:
                    bad("P08", "queue-order", f"node {nn} queues {names}, order of readiness is {n.queue}")
            # signals
            if len(n.signal) > 1:
                ok("signal-state")
                if n.obj.signal_phase != n.phase:
                    bad("P06", "signal-phase", f"node {nn}: phase {n.obj.signal_phase}, the plan {n.signal} gives {n.phase}")
                    raise _Abort
                if abs(n.obj.signal_t - n.t) > EPS:
                    bad("P06", "signal-time", f"node {nn}: elapsed phase time {n.obj.signal_t}, expected {n.t}")
                    raise _Abort
                self.phases[nn].append((T, n.phase))
        # world collections
        living = {nm for nm, c in C.items() if c[0] in ("home", "wait", "run")}
        running = {nm for nm, c in C.items() if c[0] == "run"}
        if set(W.VEHICLES_LIVING) != living:
            bad("P01", "living-collection", f"VEHICLES_LIVING differs: {sorted(set(W.VEHICLES_LIVING) ^ living)[:6]}")
        if set(W.VEHICLES_RUNNING) != running:
            bad("P01", "running-collection", f"VEHICLES_RUNNING differs: {sorted(set(W.VEHICLES_RUNNING) ^ running)[:6]}")
        for l, s in links.items():
            o = s.obj
            ok("params")
            if abs(o.u - s.u) > 1e-9 * s.u or abs(o.delta_per_lane - s.dpl) > 1e-9 * s.dpl or abs(o.kappa - s.kappa) > 1e-9 * s.kappa:
                bad("P23", "link-parameters", f"link {l}: u={o.u}, kappa={o.kappa}, spacing={o.delta_per_lane}; expected {s.u}, {s.kappa}, {s.dpl}")
            if abs(o.capacity_in - s.cap_in) > 1e-9 * max(1, s.cap_in) or abs(o.capacity_out - s.cap_out) > 1e-9 * max(1, s.cap_out):
                bad("P23", "link-capacity", f"link {l}: capacity_in={o.capacity_in}, capacity_out={o.capacity_out}; expected {s.cap_in}, {s.cap_out}")
            cap = self._capacity(s)
            w = 1 / s.tau / s.kappa
            if abs(o.capacity - cap) > 1e-9 * cap or abs(o.w - w) > 1e-9 * w or abs(o.delta - 1 / s.kappa) > 1e-9 / s.kappa:
                bad("P23", "derived-parameters", f"link {l}: capacity={o.capacity}, w={o.w}, delta={o.delta}; consistent values are {cap}, {w}, {1/s.kappa}")

    _live_queries = True


class _Abort(Exception):
    pass


def run(spec, cpp=False, keep_log=False, hooks=None, W=None, mid=None, setup=None):
    """Builds the world, runs it under the monitor; returns the monitor (with .W)."""
    from . import scen
    if W is None:
        W = scen.build_world(spec, cpp=cpp)
    m = Monitor(spec, W, cpp)
    m.keep_log = keep_log
    if setup:
        setup(m)
    m.start()
    evs = defaultdict(list)
    for e in spec.get("events", []):
        evs[e["step"]].append(e)

    def end_of_step(_W=None):
        m.observe()
        if mid:
            mid(m)
        for e in evs.get(m.T, ()):
            scen.apply_event(W, e)
    if cpp:
        W.finalize_scenario()
        guard = 0
        while W.check_simulation_ongoing():
            t0 = W.T
            W.exec_simulation(duration_t2=W.DELTAT)
            if W.T == t0:
                m.bad("P13", "stuck-clock", f"exec_simulation(duration_t2={W.DELTAT}) did not advance the clock at step {t0}")
                break
            if W.T != t0 + 1:
                m.bad("P13", "clock", f"exec_simulation(duration_t2={W.DELTAT}) advanced the clock from {t0} to {W.T}")
                break
            end_of_step()
    else:
        W.user_function = end_of_step
        W.exec_simulation()
    m.W = W
    m.signal_logs()
    return m
