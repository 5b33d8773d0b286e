"""Read-only uses of a world: what a careful user calls between steps. Each takes (W, rng) and may raise only its own errors."""
import copy, os, tempfile


def _l(W, r):
    return r.choice(W.LINKS)


def _v(W, r):
    return W.VEHICLES[r.choice(list(W.VEHICLES))] if W.VEHICLES else None


def q_veh_route(W, r):
    v = _v(W, r)
    if v:
        v.traveled_route(include_arrival_time=r.random() < .5, include_departure_time=r.random() < .5)


def q_veh_xy(W, r):
    v = _v(W, r)
    if v and len(v.log_t):
        v.get_xy_coords(r.choice([-1, r.choice(list(v.log_t))]))


def q_veh_logs(W, r):
    v = _v(W, r)
    if v:
        for a in ("log_t", "log_x", "log_v", "log_state", "log_link", "log_lane", "log_t_link", "state", "link", "x", "v"):
            getattr(v, a)
        list(v.log_t_link)


def q_link_counts(W, r):
    l = _l(W, r)
    t = r.uniform(0, max(1, W.TIME))
    for f in ("arrival_count", "departure_count", "num_vehicles_t", "average_density", "average_speed", "average_flow", "instant_travel_time", "actual_travel_time"):
        getattr(l, f)(t)
    l.inflow_between(t / 2, t)
    l.average_travel_time_between(t / 2, t)


def q_link_curves(W, r):
    l = _l(W, r)
    for a in ("cum_arrival", "cum_departure", "traveltime_actual", "traveltime_instant"):
        list(getattr(l, a))


def q_link_now(W, r):
    l = _l(W, r)
    l.speed, l.density, l.flow, l.num_vehicles, l.num_vehicles_queue
    l.get_toll(W.TIME)
    repr(l)


def q_nodes(W, r):
    n = r.choice(W.NODES)
    n.signal_phase, n.signal_t, n.flow_capacity, n.number_of_lanes, repr(n)
    list(getattr(n, "signal_log", []))
    W.get_node(n.name)
    W.get_nearest_node(n.x + 1, n.y)
    W.get_nodes_in_area(n.x, n.y, 2)


def q_route_eval(W, r):
    l = _l(W, r)
    try:
        R = W.defRoute([l.name])
    except Exception:
        return
    R.actual_travel_time(r.uniform(0, max(1, W.TIME)))


def q_stats(W, r):
    W.analyzer.basic_analysis()


def q_od(W, r):
    W.analyzer.od_analysis()
    W.analyzer.od_to_pandas()


def q_link_coarse(W, r):
    W.analyzer.link_analysis_coarse()
    W.analyzer.link_to_pandas()


def q_edie(W, r):
    W.analyzer.compute_edie_state()
    W.analyzer.link_traffic_state_to_pandas()


def q_mfd(W, r):
    W.analyzer.compute_mfd()
    W.analyzer.mfd_to_pandas()


def q_veh_tables(W, r):
    W.analyzer.vehicles_to_pandas()
    W.analyzer.vehicle_trip_to_pandas()
    W.analyzer.gps_like_log_to_pandas()
    W.analyzer.log_vehicles_to_pandas()


def q_cum_table(W, r):
    W.analyzer.link_cumulative_to_pandas()
    W.analyzer.basic_to_pandas()


def q_areas(W, r):
    a = r.sample(W.NODES, max(1, len(W.NODES) // 2))
    W.analyzer.area_to_pandas([a], ["a"])
    W.analyzer.areas2areas_to_pandas([a, [n for n in W.NODES if n not in a] or a], ["a", "b"])
    if W.VEHICLES:
        W.analyzer.vehicle_groups_to_pandas([list(W.VEHICLES.values())[:3]], ["g"])


def q_print(W, r):
    W.analyzer.print_simple_stats(force_print=True)
    W.print_scenario_stats()
    W.analyzer.show_simulation_progress()


def q_traj(W, r):
    W.analyzer.compute_accurate_traj()


def q_paths(W, r):
    from uxsim import Utilities as U
    a, b = r.choice(W.NODES), r.choice(W.NODES)
    try:
        U.get_shortest_path_distance_between_all_nodes(W)
        U.get_shortest_path_instantaneous_travel_time_between_all_nodes(W)
    except AttributeError:
        pass
    if a is not b:
        try:
            U.enumerate_k_shortest_routes(W, a.name, b.name, k=2)
        except Exception:
            pass


def q_ongoing(W, r):
    W.check_simulation_ongoing(), W.on_time(W.TIME), repr(W)


LIGHT = [q_veh_route, q_veh_xy, q_veh_logs, q_link_counts, q_link_curves, q_link_now, q_nodes, q_route_eval, q_stats, q_ongoing]
HEAVY = [q_od, q_link_coarse, q_edie, q_mfd, q_veh_tables, q_cum_table, q_areas, q_print, q_traj, q_paths]


# exports and plots: files only below a folder of their own
def _plots(W):
    A = W.analyzer
    ls = [l.name for l in W.LINKS[:2]]
    vs = list(W.VEHICLES)[:2]
    out = dict(
        traj=lambda: A.time_space_diagram_traj([ls[0]]), density=lambda: A.time_space_diagram_density([ls[0]]), links=lambda: A.time_space_diagram_traj_links([ls[:1]]),
        cum=lambda: A.cumulative_curves(ls), net=lambda: A.network(W.TIME, detailed=0), net1=lambda: A.network(W.TIME, detailed=1), neta=lambda: A.network_average(),
        pil=lambda: A.network_pillow(W.TIME), mfd=lambda: A.macroscopic_fundamental_diagram(), show=lambda: W.show_network(),
        anim=lambda: A.network_anim(timestep_skip=max(4, (W.TSIZE or 40) // 3), figsize=(2, 2), legend=False, network_font_size=0),
        fancy=lambda: A.network_fancy(sample_ratio=0.8, speed_coef=max(2, (W.TSIZE or 40) // 3), figsize=2), data=lambda: A.output_data())
    if vs:
        out["veh"] = lambda: A.plot_vehicle_log(vs[0])
        out["vehs"] = lambda: A.plot_vehicles_log(vs)
    return out


def plot(W, name):
    import matplotlib.pyplot as plt
    try:
        _plots(W)[name]()
    finally:
        plt.close("all")


PLOTS = ["traj", "density", "links", "cum", "net", "net1", "neta", "pil", "mfd", "show", "data", "veh", "vehs", "anim", "fancy"]
