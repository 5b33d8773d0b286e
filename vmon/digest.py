"""Canonical picture of everything a finished or running world lets a caller observe; used by the differential oracles
(chunking, reproducibility, schedules, copies, observers). Floats are kept bit for bit."""
import hashlib, math
import numpy as np


def canon(v, byname=True):
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if math.isnan(f):
            return "nan"
        if f.is_integer() and abs(f) < 2 ** 53:
            return int(f)
        return f
    if isinstance(v, np.ndarray):
        return [canon(x) for x in v.tolist()]
    if isinstance(v, dict):
        return {str(canon(k)): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(str(canon(x)) for x in v)
    n = getattr(v, "name", None)
    if isinstance(n, str):
        return "<" + n + ">"
    return "<" + type(v).__name__ + ">"


def arr(v):
    """sequences of numbers: shape + hash of the values"""
    if isinstance(v, str):
        return v
    a = np.asarray(v, dtype=float) + 0.0
    return f"{a.shape}:{hashlib.blake2b(a.tobytes(), digest_size=8).hexdigest()}:{np.nansum(a):.9g}"


VEH_NOW = ("state", "link", "x", "v", "lane", "orig", "dest", "departure_time", "arrival_time", "travel_time", "distance_traveled",
           "route_next_link", "trip_abort", "flag_trip_aborted", "id")
VEH_LOG = ("log_t", "log_x", "log_v", "log_lane")
VEH_LOGO = ("log_state", "log_link", "log_t_link")
LINK_ARR = ("cum_arrival", "cum_departure", "traveltime_actual", "traveltime_instant")
LINK_NOW = ("num_vehicles", "speed", "density", "flow", "id", "length", "u", "kappa", "capacity", "capacity_out", "capacity_in", "merge_priority", "number_of_lanes", "signal_group")
NODE_NOW = ("signal_phase", "signal_t", "signal", "flow_capacity", "id", "x", "y", "number_of_lanes")
STATS = ("trip_all", "trip_completed", "total_travel_time", "average_travel_time", "average_delay", "total_distance_traveled")


def _get(o, a):
    try:
        v = getattr(o, a)
        return v() if callable(v) and not hasattr(v, "name") else v
    except AttributeError:
        return "<absent>"


def capture(W, logs=True, tables=False, stats=True, now=True):
    """-> {section: {key: canonical value}}"""
    D = {}
    D["clock"] = dict(T=int(W.T), TIME=canon(W.TIME), TSIZE=canon(W.TSIZE), TMAX=canon(W.TMAX), ongoing=bool(W.check_simulation_ongoing()),
                      n=[len(W.NODES), len(W.LINKS), len(W.VEHICLES)])
    vs, ls = {}, {}
    for nm, v in W.VEHICLES.items():
        if now:
            vs[nm] = [canon(_get(v, a)) for a in VEH_NOW]
        if logs:
            ls[nm] = [arr(_get(v, a)) for a in VEH_LOG] + [hashlib.blake2b(repr([canon(x) for x in _get(v, a)]).encode(), digest_size=8).hexdigest() for a in VEH_LOGO]
    D["vehicles"] = vs
    D["living"] = {"l": list(W.VEHICLES_LIVING), "r": sorted(W.VEHICLES_RUNNING)}
    if logs:
        D["vehicle-logs"] = ls
    D["link-curves"] = {l.name: [arr(_get(l, a)) for a in LINK_ARR] for l in W.LINKS}
    D["links"] = {l.name: [canon(_get(l, a)) for a in LINK_NOW] for l in W.LINKS}
    D["nodes"] = {n.name: [canon(_get(n, a)) for a in NODE_NOW] + [[canon(x) for x in getattr(n, "generation_queue", [])]] for n in W.NODES}
    D["prefs"] = prefs(W)
    if stats and not W.check_simulation_ongoing():
        D["stats"] = {a: canon(_get(W.analyzer, a)) for a in STATS}
    if tables:
        A = W.analyzer
        T = {}
        for f in ("basic_to_pandas", "od_to_pandas", "mfd_to_pandas", "link_to_pandas", "link_traffic_state_to_pandas", "link_cumulative_to_pandas", "vehicles_to_pandas"):
            try:
                T[f] = hashlib.blake2b(getattr(A, f)().to_csv(index=False).encode(), digest_size=8).hexdigest()
            except Exception as e:
                T[f] = "raised " + type(e).__name__
        D["tables"] = T
    return D


def prefs(W):
    """route preferences of the engine"""
    out = {}
    cw = getattr(W, "_cpp_world", None)
    if cw is not None:
        out["pref"] = arr(cw.route_preference)
        out["dist"] = arr([[min(x, 1e18) for x in r] for r in getattr(cw, "dist", [])])
    elif getattr(W, "ROUTECHOICE", None) is not None:
        out["pref"] = arr(W.ROUTECHOICE.route_pref)
        out["dist"] = arr(W.ROUTECHOICE.dist)
        out["record"] = hashlib.blake2b(repr([(k, canon(v)) for k, v in W.ROUTECHOICE.dist_record.items()]).encode(), digest_size=8).hexdigest()
    return out


def compare(a, b, skip=(), n=3):
    """first differences, as text; [] when equal"""
    out = []
    for s in a:
        if s in skip:
            continue
        if s not in b:
            out.append(f"{s}: missing")
            continue
        x, y = a[s], b[s]
        if x == y:
            continue
        ks = list(x) + [k for k in y if k not in x]
        diff = [k for k in ks if x.get(k, "<none>") != y.get(k, "<none>")]
        for k in diff[:1]:
            u, w = x.get(k, "<none>"), y.get(k, "<none>")
            if isinstance(u, list) and isinstance(w, list) and len(u) == len(w):
                i = next(i for i in range(len(u)) if u[i] != w[i])
                names = dict(vehicles=VEH_NOW, links=LINK_NOW, nodes=NODE_NOW + ("queue",))
                names["link-curves"] = LINK_ARR
                names["vehicle-logs"] = VEH_LOG + VEH_LOGO
                nmf = names.get(s, range(len(u)))[i]
                out.append(f"{s}: {k}.{nmf}: {str(u[i])[:80]} != {str(w[i])[:80]} ({len(diff)} differ)")
            else:
                out.append(f"{s}: {k}: {str(u)[:100]} != {str(w)[:100]} ({len(diff)} differ)")
        if len(out) >= n:
            break
    return out


def hexdigest(D, skip=()):
    return hashlib.blake2b(repr([(s, D[s]) for s in D if s not in skip]).encode(), digest_size=12).hexdigest()
