"""Random hostile use of the C++ engine's public API. Every operation is written to a journal before it runs, so that a death of
the process names its cause. Operations may raise ordinary Python exceptions; nothing else."""
import copy, gc, json, math, os, random, sys

NUM = [0, 1, 2, 5, 10, 30, 100, 500, 0.5, 1e-9, -1, -0.5, -5, 1e9, 1e18, float("inf"), float("-inf"), float("nan"), 2 ** 31, 2 ** 63, -2 ** 31]
ODD = [None, "", "x", [], {}, object, True, (1, 2), "nan"]
OKERR = (Exception,)


class Fuzz:
    def __init__(self, seed, journal, hostile=0.15, max_ops=120):
        self.r = random.Random(seed)
        self.j = journal
        self.h = hostile
        self.max_ops = max_ops
        self.W = None
        self.kept = []          # things that outlive their world
        self.frozen, self.changed, self.compared = [], [], 0
        self.count = {}
        self.raised = {}
        self.n = 0

    # -- values -----------------------------------------------------------
    def bad(self):
        return self.r.random() < self.h

    def num(self, *ok, big=True):
        r = self.r
        if self.bad():
            v = r.choice(NUM + ODD[:3])
            if not big and isinstance(v, (int, float)) and (abs(v) > 1e5 or 0 < abs(v) < 0.1):
                v = r.choice([-1, 0, 3, float("nan")])
            return v
        return r.choice(ok)

    def name(self, known, fresh):
        r = self.r
        if self.bad():
            return r.choice(["nope", "", None, 3, "a" * 300, "é\u4e2d", "x\0y", 1.5, object()])
        if known and r.random() < 0.8:
            return r.choice(known)
        return fresh

    def node(self, obj=True):
        W, r = self.W, self.r
        if self.bad() or not W.NODES:
            return r.choice(["nope", None, 7, [], "n0"] + [k for k in self.kept if type(k).__name__ == "CppNode"][:3])
        n = r.choice(W.NODES)
        return n if r.random() < 0.5 else n.name

    def link(self):
        W, r = self.W, self.r
        if self.bad() or not W.LINKS:
            return r.choice(["nope", None, 7, [], "l0"] + [k for k in self.kept if type(k).__name__ == "CppLink"][:3])
        n = r.choice(W.LINKS)
        return n if r.random() < 0.5 else n.name

    def lobj(self):
        return self.r.choice(self.W.LINKS)

    def vobj(self):
        vs = self.W._veh_by_index if self.r.random() < 0.5 else list(self.W.VEHICLES.values())
        return self.r.choice(vs)

    # -- running ----------------------------------------------------------
    def do(self, what, f):
        self.n += 1
        self.j.write(f"{self.n} {what}\n")
        self.j.flush()
        self.count[what.split("(")[0].split("=")[0]] = self.count.get(what.split("(")[0].split("=")[0], 0) + 1
        try:
            return f()
        except OKERR as e:
            k = type(e).__name__
            self.raised[k] = self.raised.get(k, 0) + 1
            return None

    def show(self, *a, **k):
        def s(v):
            x = repr(v)
            return x[:60]
        return ", ".join([s(v) for v in a] + [f"{n}={s(v)}" for n, v in k.items()])

    def call(self, obj, meth, *a, **k):
        return self.do(f"{type(obj).__name__}.{meth}({self.show(*a, **k)})", lambda: getattr(obj, meth)(*a, **k))

    def get(self, obj, attr):
        def f():
            v = getattr(obj, attr)
            if hasattr(v, "tolist"):
                v.tolist()
                self.freeze(f"{type(obj).__name__}.{attr}", v)
            elif isinstance(v, (list, tuple, dict)):
                repr(v)
            return v
        return self.do(f"get {type(obj).__name__}.{attr}", f)

    def freeze(self, what, v):
        """an array handed to the caller stays as it is"""
        if getattr(v, "dtype", None) is not None and v.dtype.kind in "if" and v.size and len(self.frozen) < 60:
            self.frozen.append((what, v, v.tobytes()))

    def thaw(self):
        for what, v, b in self.frozen:
            self.compared += 1
            if v.tobytes() != b:
                self.changed.append(f"the array {what} returned earlier changed afterwards")
        if len(self.frozen) > 30:
            self.frozen = self.r.sample(self.frozen, 15)

    def set(self, obj, attr, v):
        return self.do(f"set {type(obj).__name__}.{attr}={self.show(v)}", lambda: setattr(obj, attr, v))

    def new_world(self):
        import uxsim
        r = self.r
        k = dict(cpp=True, name=r.choice(["", "w"]), print_mode=0, save_mode=0, show_mode=0, random_seed=self.num(1, 42, None, 7))
        k["deltan"] = self.num(1, 2, 5, 5, 10, big=False)
        k["reaction_time"] = self.num(1, 1, 0.5, 2, big=False)
        if r.random() < 0.8:
            k["tmax"] = self.num(100, 300, 600, 1000, 2000, big=False)
        for a, vals in (("duo_update_time", (60, 100, 300, 600)), ("duo_update_weight", (0.5, 1, 0.1)), ("duo_noise", (0.01, 0, 0.5)), ("vehicle_logging_timestep_interval", (1, 1, 0, -1)),
                        ("hard_deterministic_mode", (True, False)), ("no_cyclic_routing", (True, False)), ("adjust_node_capacity", (True, False)), ("route_choice_update_gradual", (True, False)),
                        ("instantaneous_TT_timestep_interval", (1, 5, 20)), ("threads", (1, 2, 4, -1)), ("eular_dt", (60, 120)), ("show_progress_deltat", (60, 600)), ("print_mode", (0, 1))):
            if r.random() < 0.3:
                k[a] = self.num(*vals, big=False)
        W = self.do(f"World({self.show(**k)})", lambda: uxsim.World(**k))
        if W is None:
            W = self.do("World()", lambda: uxsim.World(cpp=True, print_mode=0, save_mode=0, tmax=600, deltan=5))
        self.W = W

    def build(self):
        r, W = self.r, self.W
        for i in range(r.randint(2, 7)):
            self.op_node()
        for i in range(r.randint(2, 14)):
            self.op_link()
        for i in range(r.randint(1, 5)):
            self.op_demand()
        for i in range(r.randint(0, 5)):
            self.op_vehicle()

    def op_node(self):
        r, W = self.r, self.W
        k = {}
        if r.random() < 0.4:
            k["signal"] = r.choice([[30, 30], [10, 20, 5], [0], [0.5, 0.5]]) if not self.bad() else r.choice([[], [0, 0], [-5, 5], [float("nan"), 3], 5, None, ["a"], [1e18, 1], [-1], [float("inf"), 5]])
            k["signal_offset"] = self.num(0, 10, 1000)
        if r.random() < 0.3:
            k["flow_capacity"] = self.num(0.5, 1, 2)
        if r.random() < 0.2:
            k["number_of_lanes"] = self.num(1, 2, 3)
        if r.random() < 0.2:
            k["auto_rename"] = True
        nm = self.name([n.name for n in W.NODES] if r.random() < 0.1 else None, f"n{len(W.NODES)}")
        self.call(W, "addNode", nm, self.num(0, 1, 2, 500), self.num(0, 1, 2, 500), **k)

    def op_link(self):
        r, W = self.r, self.W
        k = {}
        if r.random() < 0.5:
            k["free_flow_speed"] = self.num(10, 20, 30, 3)
        if r.random() < 0.4:
            k[r.choice(["jam_density", "jam_density_per_lane"])] = self.num(0.2, 0.1, 0.4)
        if r.random() < 0.5:
            k["number_of_lanes"] = self.num(1, 2, 3, 4, big=False)
        for a, vals in (("merge_priority", (1, 2, 0.5, 0)), ("capacity_out", (0.5, 1, 0)), ("capacity_in", (0.5, 1, 0)), ("signal_group", (0, [0], [1], [0, 1], [5])), ("eular_dx", (50, 100))):
            if r.random() < 0.25:
                k[a] = self.num(*vals, big=a != "eular_dx")
        if r.random() < 0.1:
            k["congestion_pricing"] = r.choice([lambda t: 10, lambda t: t, lambda t: float("nan"), lambda t: "x", lambda t: 1 / 0, 5])
        if r.random() < 0.1:
            k["auto_rename"] = True
        nm = self.name([l.name for l in W.LINKS] if r.random() < 0.1 else None, f"l{len(W.LINKS)}")
        self.call(W, "addLink", nm, self.node(), self.node(), self.num(100, 500, 1000, 50, big=False), **k)

    def op_demand(self):
        r, W = self.r, self.W
        z = r.random()
        t0, t1 = self.num(0, 0, 50, 100, big=False), self.num(100, 200, 400, 800, big=False)
        k = {}
        if r.random() < 0.5:
            k["flow"] = self.r.choice([0.1, 0.5, 1, 2]) if not self.bad() else self.r.choice([-1, 0, float("nan"), 5, "x", None, float("inf")])
        else:
            k["volume"] = self.r.choice([10, 50, 100]) if not self.bad() else self.r.choice([-1, 0, 0.5, float("nan"), 600, "x", None, float("inf")])
        if z < 0.6:
            self.call(W, "adddemand", self.node(), self.node(), t0, t1, **k)
        elif z < 0.7:
            self.call(W, r.choice(["adddemand_nodes2nodes", "adddemand_nodes2nodes2"]), [self.node() for _ in range(r.randint(0, 3))], [self.node() for _ in range(r.randint(0, 3))], t0, t1, **k)
        elif z < 0.8:
            self.call(W, "adddemand_point2point", self.num(0, 1, 2), self.num(0, 1, 2), self.num(0, 1, 2), self.num(0, 1, 2), t0, t1, **k)
        else:
            self.call(W, r.choice(["adddemand_area2area", "adddemand_area2area2"]), self.num(0, 1, 2), self.num(0, 1, 2), self.num(1, 3, 1000), self.num(0, 1, 2), self.num(0, 1, 2), self.num(1, 3, 1000), t0, t1, **k)

    def op_vehicle(self):
        r, W = self.r, self.W
        k = {}
        if r.random() < 0.3:
            k["name"] = self.name(list(W.VEHICLES) if r.random() < 0.3 else None, f"car{self.n}")
        if r.random() < 0.2:
            k["links_prefer"] = [self.link() for _ in range(r.randint(0, 2))]
        if r.random() < 0.2:
            k["links_avoid"] = [self.link() for _ in range(r.randint(0, 2))]
        if r.random() < 0.1:
            k["departure_time_is_time_step"] = 1
        if r.random() < 0.1:
            k["trip_abort"] = self.num(0, 1)
        self.call(W, "addVehicle", self.node(), self.node(), self.num(0, 10, 100, W.TIME if hasattr(W, "TIME") else 0), **k)

    def op_exec(self):
        r, W = self.r, self.W
        z = r.random()
        if z < 0.1:
            self.call(W, "finalize_scenario", *([self.num(100, 300, 1000, big=False)] if r.random() < 0.3 else []))
            return
        if W.TMAX is None and not W.finalized and r.random() < 0.6:
            self.call(W, "finalize_scenario", 500)
        k = {} if z < 0.15 else {r.choice(["until_t", "duration_t", "duration_t2"]): self.num(5, 10, 50, 100, 300, big=False)}
        self.call(W, "exec_simulation", **k)

    def op_read(self):
        r, W = self.r, self.W
        z = r.random()
        if z < 0.25 and W.NODES:
            n = r.choice(W.NODES)
            for a in r.sample(["signal", "flow_capacity", "number_of_lanes", "flow_capacity_remain", "cycle_length", "signal_phase", "signal_t", "signal_log", "inlinks", "outlinks", "x", "id"], 3):
                self.get(n, a)
        elif z < 0.55 and W.LINKS:
            l = self.lobj()
            for a in r.sample(["cum_arrival", "cum_departure", "traveltime_instant", "traveltime_actual", "signal_group", "merge_priority", "capacity_out", "capacity_in", "capacity_in_remain", "speed", "density", "flow", "num_vehicles", "num_vehicles_queue", "vehicles"], 3):
                v = self.get(l, a)
                if r.random() < 0.1 and v is not None:
                    self.kept.append(v)
            for m in r.sample(["arrival_count", "departure_count", "num_vehicles_t", "average_density", "instant_travel_time", "actual_travel_time", "average_speed", "average_flow", "get_toll"], 2):
                self.call(l, m, self.num(0, 50, 100, 1e4))
            if r.random() < 0.3:
                self.call(l, r.choice(["inflow_between", "average_travel_time_between"]), self.num(0, 50), self.num(100, 200))
        elif z < 0.85 and W.VEHICLES:
            v = self.vobj()
            for a in r.sample(["state", "departure_time", "arrival_time", "travel_time", "link", "x", "v", "lane", "leader", "follower", "log_t", "log_x", "log_s", "log_v", "log_lane", "log_state", "log_link", "log_t_link",
                               "route_next_link", "route_preference", "links_avoid", "specified_route", "W", "distance_traveled", "link_arrival_time", "flag_trip_aborted", "arrival_time_link", "x_old"], 4):
                x = self.get(v, a)
                if r.random() < 0.2 and x is not None:
                    self.kept.append(x)
            if r.random() < 0.3:
                self.call(v, "traveled_route")
            if r.random() < 0.3:
                self.call(v, "get_xy_coords", self.num(-1, 0, 50))
        else:
            A = getattr(W, "analyzer", None)
            if A is not None:
                self.call(A, r.choice(["basic_analysis", "od_analysis", "link_analysis_coarse", "compute_edie_state", "od_to_pandas", "link_to_pandas", "vehicles_to_pandas", "link_traffic_state_to_pandas", "link_cumulative_to_pandas", "basic_to_pandas", "mfd_to_pandas", "vehicle_trip_to_pandas", "compute_accurate_traj"]))
            rc = getattr(W, "ROUTECHOICE", None)
            if rc is not None:
                self.get(rc, r.choice(["dist", "next", "dist_record"]))
            self.call(W, r.choice(["get_node", "get_link"]), self.name([n.name for n in W.NODES + W.LINKS], "zz"))
            if W.LINKS:
                R = self.call(W, "defRoute", [self.link() for _ in range(r.randint(0, 3))])
                if R is not None:
                    self.call(R, "actual_travel_time", self.num(0, 100))
                    self.kept.append(R)

    def op_write(self):
        r, W = self.r, self.W
        z = r.random()
        if z < 0.3 and W.NODES:
            n = r.choice(W.NODES)
            a = r.choice(["signal", "flow_capacity", "number_of_lanes", "flow_capacity_remain", "signal_phase", "signal_t", "override"])
            if a == "override":
                self.call(n, "override_signal", r.choice([[10, 10], [5, 5, 5], [0], [], [0, 0], [-1, 3], [float("nan")]]), reset=bool(r.random() < .5))
            elif a == "signal":
                self.set(n, a, r.choice([[10, 10], [5, 5, 5], [0], [], [0, 0], [-1, 3], [float("nan")], None]))
            else:
                self.set(n, a, self.num(0, 1, 2, 3))
        elif z < 0.6 and W.LINKS:
            l = self.lobj()
            a = r.choice(["signal_group", "merge_priority", "capacity_out", "capacity_in", "capacity_in_remain", "capacity_out_remain", "u", "kappa", "route_choice_penalty", "toll", "number_of_lanes"])
            if a == "u":
                self.call(l, "change_free_flow_speed", self.num(5, 10, 25))
            elif a == "kappa":
                self.call(l, "change_jam_density", self.num(0.1, 0.2, 0.3))
            elif a == "toll":
                self.set(l, "congestion_pricing", r.choice([None, lambda t: 100, lambda t: float("inf"), 3]))
            elif a == "signal_group":
                self.set(l, a, r.choice([[0], [1], 0, [0, 1], [], [99], [-1], None, "a", [2 ** 40]]))
            else:
                self.set(l, a, self.num(0, 0.5, 1, 2))
        elif W.VEHICLES:
            v = self.vobj()
            a = r.choice(["enforce_route", "set_links_prefer", "set_links_avoid", "add_dest", "add_dests", "trip_abort", "distance_traveled"])
            if a == "enforce_route":
                self.call(v, a, [self.link() for _ in range(r.randint(0, 4))], **({"set_avoid": True} if r.random() < .2 else {}))
            elif a.startswith("set_"):
                self.call(v, a, [self.link() for _ in range(r.randint(0, 3))])
            elif a == "add_dest":
                self.call(v, a, self.node(), *([self.num(0, 1, -1)] if r.random() < .4 else []))
            elif a == "add_dests":
                self.call(v, a, [self.node() for _ in range(r.randint(0, 3))])
            else:
                self.set(v, a, self.num(0, 1))

    def touch_kept(self):
        r = self.r
        self.thaw()
        for x in r.sample(self.kept, min(4, len(self.kept))):
            t = type(x).__name__
            if hasattr(x, "tolist"):
                self.do(f"kept array {t}", lambda: (x.tolist(), x.sum() if x.dtype.kind in "if" else None))
            elif t in ("Vehicle", "Link", "Node", "CppVehicle", "CppLink", "CppNode", "World", "CppRoute"):
                for a in r.sample(["name", "id", "x", "state", "link", "leader", "cum_arrival", "length", "log_t", "W", "log_x", "inlinks", "in_links"], 4):
                    self.get(x, a)
            else:
                self.do(f"kept {t}", lambda: repr(x)[:50])

    def drop(self):
        r, W = self.r, self.W
        for _ in range(r.randint(0, 4)):
            z = r.random()
            if z < 0.4 and W.VEHICLES:
                v = self.vobj()
                self.kept.append(v)
                for a in ("leader", "follower", "log_x", "log_t", "_cpp_vehicle"):
                    x = self.do(f"keep {a}", lambda: getattr(v, a))
                    if x is not None and r.random() < 0.5:
                        self.kept.append(x)
            elif z < 0.7 and W.LINKS:
                self.kept.append(r.choice(W.LINKS + W.NODES))
            elif W.LINKS:
                x = self.do("keep curve", lambda: W.LINKS[0].cum_arrival)
                if x is not None:
                    self.kept.append(x)
        self.j.write(f"{self.n} drop world\n")
        self.j.flush()
        del W
        self.W = None
        if r.random() < 0.7:
            # only raw pieces survive
            self.kept = [k for k in self.kept if not type(k).__name__.startswith("Cpp")] if r.random() < 0.6 else self.kept
        gc.collect()
        self.touch_kept()
        if len(self.kept) > 25:
            self.kept = r.sample(self.kept, 10)

    def run(self):
        r = self.r
        self.new_world()
        if self.W is None:
            return
        self.build()
        ops = [(self.op_exec, 5), (self.op_read, 8), (self.op_write, 4), (self.op_vehicle, 1), (self.op_demand, 1), (self.op_node, .4), (self.op_link, .8), (self.touch_kept, .5)]
        tot = sum(w for _, w in ops)
        for _ in range(r.randint(10, self.max_ops)):
            z = r.random() * tot
            for f, w in ops:
                z -= w
                if z <= 0:
                    break
            try:
                f()
            except (AttributeError, IndexError, TypeError, KeyError, ValueError):
                pass        # the generator itself stumbled over a half-built world
        if r.random() < 0.3:
            self.do("exec to the end", lambda: self.W.exec_simulation())
            for _ in range(4):
                try:
                    self.op_read()
                except Exception:
                    pass
        self.drop()
