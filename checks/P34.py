"""P34 figures: every figure asked for is made and shows the recorded values."""
import math, os, random, shutil, tempfile, warnings
from collections import Counter, defaultdict
import numpy as np
from vmon import scen, env, digest

TECHNIQUE = "runtime interception of the drawing libraries: every figure that the real plotting functions hand over for saving is read back (curves, images, colours, widths, texts) and compared with the recorded logs, curves and cell values it is documented to show"
LEVEL_NOTE = "Exploration of sampled scenarios and figures, both engines. Rendering itself (pixels) belongs to the libraries; a small part of the figures is rendered and the files opened. The moving points of network_fancy are smoothed and random; only its frames are checked. The interactive viewer is not covered."
ASSUME = ["figures are asked for at times and with objects that exist; the times of network figures have been simulated",
          "colours follow the documented colour maps (viridis for relative speed, jet for the delay between 10% and 90%)"]
RULE = ("Scenarios by seed on both engines, with durations and step sizes that are integers, floats and not multiples, short links, signals, lanes, vertical and horizontal networks, after and during the run; all figures with links given as object, name, list or default. "
        "Non-trivial: at least one vehicle entered a link; distinct by the final picture.")
REQUIRED = ["fig-traj", "fig-density", "fig-traj-links", "fig-cumulative", "fig-network-simple", "fig-network-detailed", "fig-network-average", "fig-mfd", "fig-vehicle", "fig-vehicles", "fig-show-network", "fig-pillow", "fig-anim", "fig-fancy",
            "single-name", "single-object", "default-links", "trajectory-points", "signal-marks", "mid-run", "float-step", "float-duration", "fraction-duration", "vertical", "rendered", "scenarios-python", "scenarios-cpp"]
BUDGET = dict(quick=70, thorough=800)


def jobs(tier, seed):
    n = 220 if tier == "quick" else 4500
    base = seed * 1_000_003 + 34 * 20_011
    return [dict(seed=(base + i) % (1 << 31), cpp=i % 3 == 2, so="plain" if i % 3 == 2 else None, timeout=240) for i in range(n)]


class Cap:
    """stands in for Figure.savefig and for PIL drawing"""

    def __init__(s, render):
        s.render = render
        s.figs = []
        s.frames = []
        s.cur = []
        s.saved = []

    def __enter__(s):
        import matplotlib.figure as mf
        from PIL import ImageDraw, Image
        s.mf, s.ID, s.Im = mf, ImageDraw, Image
        s.old = (mf.Figure.savefig, mf.Figure.tight_layout, ImageDraw.ImageDraw.line, ImageDraw.ImageDraw.text, Image.Image.save, ImageDraw.ImageDraw.ellipse)

        def savefig(fig, fname, *a, **k):
            s.figs.append(read(fig, str(fname)))
            if s.render:
                s.old[0](fig, fname, *a, **k)
            else:
                open(fname, "wb").close()

        def line(d, xy, fill=None, width=0, joint=None):
            s.cur.append(("line", [tuple(map(float, p)) for p in xy], fill, width))
            return s.old[2](d, xy, fill, width, joint)

        def text(d, xy, text, *a, **k):
            s.cur.append(("text", xy, text))
            if str(text).startswith("t = "):
                s.frames.append((str(text), s.cur))
                s.cur = []
            return s.old[3](d, xy, text, *a, **k)

        def save(im, fp, *a, **k):
            if isinstance(fp, (str, os.PathLike)):
                s.saved.append((str(fp), 1 + len(list(k.get("append_images", ())))))
            return s.old[4](im, fp, *a, **k)
        mf.Figure.savefig = savefig
        mf.Figure.tight_layout = (lambda fig, *a, **k: None) if not s.render else s.old[1]
        ImageDraw.ImageDraw.line, ImageDraw.ImageDraw.text, Image.Image.save = line, text, save
        return s

    def __exit__(s, *e):
        s.mf.Figure.savefig, s.mf.Figure.tight_layout, s.ID.ImageDraw.line, s.ID.ImageDraw.text, s.Im.Image.save, s.ID.ImageDraw.ellipse = s.old
        import matplotlib.pyplot as plt
        plt.close("all")


def read(fig, fname):
    from matplotlib.colors import to_rgba
    out = dict(file=fname, axes=[])
    for ax in fig.axes:
        a = dict(lines=[], images=[], texts=[(t.get_text(), t.get_position(), t.get_color()) for t in ax.texts], title=ax.get_title(), xlim=ax.get_xlim(), ylim=ax.get_ylim(), polys=[])
        for ln in ax.lines:
            a["lines"].append(dict(x=list(ln.get_xdata(orig=True)), y=list(ln.get_ydata(orig=True)), ls=ln.get_linestyle(), marker=ln.get_marker(), lw=ln.get_linewidth(), color=to_rgba(ln.get_color()), label=ln.get_label()))
        for im in ax.images:
            a["images"].append(dict(data=np.array(im.get_array()), extent=tuple(im.get_extent()), clim=im.get_clim()))
        for co in ax.collections:
            a["polys"].append([p.vertices.copy() for p in co.get_paths()])
        out["axes"].append(a)
    return out


def near(a, b, tol=1e-7):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_xy(ln, xs, ys, tol=1e-7):
    return len(ln["x"]) == len(xs) and all(near(float(a), float(b), tol) for a, b in zip(ln["x"], xs)) and all(near(float(a), float(b), tol) for a, b in zip(ln["y"], ys))


class C:
    def __init__(s, job):
        s.job, s.cpp = job, job["cpp"]
        s.r = random.Random(job["seed"] * 6151 + 34)
        s.c, s.v = Counter(), []
        s.obs = 0

    def bad(s, rule, msg):
        if len(s.v) < 4:
            s.v.append((rule, msg))

    def ask(s, what, f, n=1, render=None):
        """calls a plotting function; -> the figures it saved"""
        render = s.r.random() < 0.04 if render is None else render
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            with Cap(render) as cap:
                f()
        s.c["fig-" + what] += 1
        if render:
            s.c["rendered"] += 1
        w = [str(x.message) for x in ws if x.category is UserWarning and "(): " in str(x.message)]
        if n is not None and len(cap.figs) != n:
            s.bad("not-drawn", f"{what}: {len(cap.figs)} figures saved, {n} expected; {s.where()}; warnings: {w[:1]}")
            return None
        for f in cap.figs:
            if not os.path.isfile(f["file"]):
                s.bad("not-drawn", f"{what}: file {f['file']} is missing")
        return cap

    def where(s):
        W = s.W
        return f"{'C++' if s.cpp else 'Python'} engine, TMAX={W.TMAX!r}, DELTAT={W.DELTAT!r}, T={W.T}, {len(W.LINKS)} links"

    # -- time-space diagrams
    def visits(s):
        """from the logs alone: link name -> [(vehicle, lane, [(t, x)])]"""
        out = defaultdict(list)
        for v in s.W.VEHICLES.values():
            prev = None
            for t, x, l, lane in zip(v.log_t, v.log_x, v.log_link, v.log_lane):
                nm = None if (isinstance(l, int) or l is None) else l.name if hasattr(l, "name") else l
                if nm in (None, -1, ""):
                    prev = None
                    continue
                if nm != prev:
                    out[nm].append((v.name, lane, []))
                out[nm][-1][2].append((float(t), float(x)))
                prev = nm
        return out

    def check_traj(s, fig, links, what):
        W = s.W
        ax = fig["axes"][0]
        V = s.vis
        want = []
        d = 0.0
        for l in links:
            for v, lane, pts in V.get(l.name, []):
                sh = lane / l.number_of_lanes * W.DELTAT / 2
                want.append((l, v, d, [(t + sh, x + d) for t, x in pts]))
            d += l.length
        got = [ln for ln in ax["lines"] if ln["ls"] == "-" and ln["marker"] in ("None", None, "")]
        if len(got) != len(want):
            s.bad("trajectories", f"{what} of {[l.name for l in links]}: {len(got)} trajectories drawn, {len(want)} passages recorded; {s.where()}")
            return
        # order within a link is that of the recorded vehicles, but only the set matters
        key = lambda pts: (round(pts[0][0], 6), round(pts[0][1], 6), len(pts))
        index = defaultdict(list)
        for g in got:
            pts = list(zip(map(float, g["x"]), map(float, g["y"])))
            for k in range(min(2, len(pts))):
                index[(round(pts[k][0], 5), round(pts[k][1], 4))].append((g, pts))
        for l, v, off, pts in want:
            cand = index.get((round(pts[0][0], 5), round(pts[0][1], 4)), [])
            ok = False
            for g, dp in cand:
                i = 0 if near(dp[0][0], pts[0][0]) and near(dp[0][1], pts[0][1]) else 1
                body = dp[i:i + len(pts)]
                if len(body) == len(pts) and all(near(a[0], b[0]) and near(a[1], b[1]) for a, b in zip(body, pts)):
                    rest = dp[:i] + dp[i + len(pts):]
                    if len(rest) <= 2 and all(near(p[1], off) or near(p[1], off + l.length) for p in rest):
                        # the added ends do not go back in time
                        if all(a[0] <= b[0] + 1e-9 for a, b in zip(dp, dp[1:])):
                            ok = True
                            break
            s.c["trajectory-points"] += len(pts)
            if not ok:
                s.bad("trajectories", f"{what} of {[q.name for q in links]}: the passage of vehicle {v} on {l.name} recorded from {pts[0]} to {pts[-1]} ({len(pts)} points) is not drawn like that; candidates {[(p[:2], p[-2:]) for _, p in cand[:2]]}; {s.where()}")
                return

    def check_signal(s, fig, links, what):
        W = s.W
        ax = fig["axes"][0]
        got = [ln for ln in ax["lines"] if ln["marker"] == "."]
        if len(got) != len(links):
            s.bad("signal", f"{what} of {[l.name for l in links]}: {len(got)} signal series drawn")
            return
        d = 0
        for ln, l in zip(got, links):
            d += l.length
            n = l.end_node
            log = list(n.signal_log)
            sg = list(l.signal_group)
            want = [i * W.DELTAT for i, p in enumerate(log) if len(n.signal) > 1 and p not in sg]
            s.c["signal-marks"] += len(want)
            if not same_xy(ln, want, [d] * len(want)):
                s.bad("signal", f"{what} of {l.name}: red times drawn {ln['x'][:5]} ({len(ln['x'])}), recorded {want[:5]} ({len(want)})")

    def pick_links(s):
        """-> (argument, the links it stands for)"""
        r, W = s.r, s.W
        z = r.random()
        l = r.choice(W.LINKS)
        if z < 0.25:
            s.c["single-name"] += 1
            return l.name, [l]
        if z < 0.5:
            s.c["single-object"] += 1
            return l, [l]
        if z < 0.6 and len(W.LINKS) <= 6:
            s.c["default-links"] += 1
            return None, list(W.LINKS)
        ls = r.sample(W.LINKS, min(len(W.LINKS), r.randint(1, 3)))
        return [q if r.random() < 0.5 else q.name for q in ls], ls

    def traj(s):
        a, ls = s.pick_links()
        sig = s.r.random() < 0.7
        cap = s.ask("traj", lambda: s.W.analyzer.time_space_diagram_traj(*([] if a is None else [a]), plot_signal=sig), len(ls))
        if cap:
            for f, l in zip(cap.figs, ls):
                s.check_traj(f, [l], "time_space_diagram_traj")
                if sig:
                    s.check_signal(f, [l], "time_space_diagram_traj")
                if l.name not in os.path.basename(f["file"]):
                    s.bad("file", f"the diagram of {l.name} was saved as {f['file']}")

    def traj_links(s):
        r, W = s.r, s.W
        path = []
        n = r.choice(W.NODES)
        for _ in range(r.randint(1, 4)):
            out = list(n.outlinks.values())
            if not out:
                break
            l = r.choice(out)
            if l in path:
                break
            path.append(l)
            n = l.end_node
        if not path:
            path = [r.choice(W.LINKS)]
        arg = [q if r.random() < 0.5 else q.name for q in path]
        if isinstance(arg[0], str) != isinstance(arg[-1], str):
            arg = [q.name for q in path]
        sig = r.random() < 0.7
        many = r.random() < 0.4
        cap = s.ask("traj-links", lambda: W.analyzer.time_space_diagram_traj_links([arg, [path[0].name]] if many else arg, plot_signal=sig), 2 if many else 1)
        if cap:
            s.check_traj(cap.figs[0], path, "time_space_diagram_traj_links")
            if sig:
                s.check_signal(cap.figs[0], path, "time_space_diagram_traj_links")
            if many:
                s.check_traj(cap.figs[1], [path[0]], "time_space_diagram_traj_links")

    def density(s):
        a, ls = s.pick_links()
        sig = s.r.random() < 0.5
        cap = s.ask("density", lambda: s.W.analyzer.time_space_diagram_density(*([] if a is None else [a]), plot_signal=sig), len(ls))
        if not cap:
            return
        for f, l in zip(cap.figs, ls):
            ax = f["axes"][0]
            if len(ax["images"]) != 1:
                s.bad("density", f"{len(ax['images'])} images in the density diagram of {l.name}")
                continue
            im = ax["images"][0]
            want = np.asarray(l.k_mat).T
            got = np.asarray(im["data"])
            nt, nx = want.shape[1], want.shape[0]
            if got.shape != want.shape or not np.allclose(got, want, atol=1e-9, equal_nan=True):
                s.bad("density", f"the density diagram of {l.name} shows other values than the cells ({got.shape} and {want.shape})")
            ex = im["extent"]
            dt, dx = l.edie_dt, l.edie_dx
            if not (ex[0] == 0 and ex[2] == 0 and abs(ex[1] - nt * dt) <= dt + 1e-9 and near(ex[3], nx * dx)):
                s.bad("density", f"the density diagram of {l.name} is drawn on {ex}, the {nt}x{nx} cells cover {nt * dt} s and {nx * dx} m")
            if not (near(im["clim"][0], 0) and near(im["clim"][1], l.kappa)):
                s.bad("density", f"the colours of {l.name}'s density diagram go from {im['clim'][0]} to {im['clim'][1]}, the jam density is {l.kappa}")
            if sig:
                s.check_signal(f, [l], "time_space_diagram_density")

    def cumulative(s):
        W = s.W
        a, ls = s.pick_links()
        cap = s.ask("cumulative", lambda: W.analyzer.cumulative_curves(*([] if a is None else [a])), len(ls))
        if not cap:
            return
        for f, l in zip(cap.figs, ls):
            lines = {ln["label"]: ln for ax in f["axes"] for ln in ax["lines"]}
            for label, data in (("arrival", l.cum_arrival), ("departure", l.cum_departure), ("instantaneous", l.traveltime_instant), ("actual", l.traveltime_actual)):
                data = [float(x) for x in data]
                if label not in lines:
                    s.bad("cumulative", f"no curve '{label}' for {l.name}: {sorted(lines)}")
                elif not same_xy(lines[label], [i * W.DELTAT for i in range(len(data))], data):
                    ln = lines[label]
                    k = next((i for i, (p, q, t) in enumerate(zip(ln["y"], data, ln["x"])) if not near(float(p), q) or not near(float(t), i * W.DELTAT)), None)
                    s.bad("cumulative", f"curve '{label}' of {l.name}: {len(ln['x'])} points drawn, {len(data)} recorded; first difference at {k}")
                s.obs += len(data)

    # -- networks
    def geometry(s, l, left):
        x1, y1, x2, y2 = l.start_node.x, l.start_node.y, l.end_node.x, l.end_node.y
        vx, vy = (y1 - y2) * 0.05, (x2 - x1) * 0.05
        if not left:
            vx, vy = -vx, -vy
        return ([x1, (2 * x1 + x2) / 3 + vx, (x1 + 2 * x2) / 3 + vx, x2], [y1, (2 * y1 + y2) / 3 + vy, (y1 + 2 * y2) / 3 + vy, y2])

    def expected(s, l, t, mode, lo, hi, lanes=True):
        """width and colour of a link in the simple figures"""
        import matplotlib.pyplot as plt
        i = int(t / s.W.DELTAT)
        k = (float(l.cum_arrival[i]) - float(l.cum_departure[i])) / l.length
        v = l.length / float(l.traveltime_instant[i])
        top = hi * (l.number_of_lanes if lanes else 1)
        if mode == "density_speed":
            return k / l.kappa * (top - lo) + lo, plt.colormaps["viridis"](v / l.u)
        if mode == "density_flow":
            return k / l.kappa * (top - lo) + lo, plt.colormaps["magma"](min(1.0, max(0.0, k * v / l.capacity)))
        return k * v / l.capacity * (top - lo) + lo, plt.colormaps["jet"](min(0.9, max(0.1, l.u / v - 1)))

    def nodes_drawn(s, ax, what):
        W = s.W
        dots = [(float(ln["x"][0]), float(ln["y"][0])) for ln in ax["lines"] if ln["marker"] == "o" and len(ln["x"]) == 1]
        if Counter((round(x, 9), round(y, 9)) for x, y in dots) != Counter((round(n.x, 9), round(n.y, 9)) for n in W.NODES):
            s.bad("network", f"{what}: {len(dots)} node marks, {len(W.NODES)} nodes")

    def time(s):
        W, r = s.W, s.r
        n = W.T
        return r.choice([0, (n - 1) * W.DELTAT, r.randrange(n) * W.DELTAT, r.uniform(0, (n - 1) * W.DELTAT)])

    def network_simple(s):
        W, r = s.W, s.r
        t = s.time()
        mode = r.choice(["density_speed", "flow_delay"])
        left = r.choice([0, 1])
        lo, hi = r.choice([(0.5, 12), (1, 5)])
        fs = r.choice([0, 12])
        cap = s.ask("network-simple", lambda: W.analyzer.network(t, detailed=0, state_variables=mode, left_handed=left, minwidth=lo, maxwidth=hi, network_font_size=fs))
        if not cap:
            return
        ax = cap.figs[0]["axes"][0]
        s.nodes_drawn(ax, "network")
        got = [ln for ln in ax["lines"] if ln["ls"] == "-" and len(ln["x"]) == 4]
        if len(got) != len(W.LINKS):
            s.bad("network", f"{len(got)} links drawn, {len(W.LINKS)} exist")
            return
        for ln, l in zip(got, W.LINKS):
            gx, gy = s.geometry(l, left)
            w, col = s.expected(l, t, mode, lo, hi)
            if not same_xy(ln, gx, gy):
                s.bad("network", f"network: link {l.name} from {(gx[0], gy[0])} to {(gx[3], gy[3])} is drawn at {list(zip(ln['x'], ln['y']))}")
            elif not near(ln["lw"], w, 1e-6) or any(abs(a - b) > 0.02 for a, b in zip(ln["color"], col)):
                s.bad("network", f"network at t={t}, {mode}: link {l.name} has width {ln['lw']}, colour {tuple(round(float(q), 3) for q in ln['color'])}; the recorded counts and travel time say {w}, {tuple(round(float(q), 3) for q in col)}; {s.where()}")
            s.obs += 1
        if fs:
            names = Counter(q[0] for q in ax["texts"])
            if names != Counter([n.name for n in W.NODES] + [l.name for l in W.LINKS]):
                s.bad("network", f"names written: {sorted(names)[:10]}")

    def network_detailed(s):
        import matplotlib.pyplot as plt
        W, r = s.W, s.r
        W.analyzer.compute_edie_state()
        t = min(s.time(), (min(np.asarray(l.k_mat).shape[0] for l in W.LINKS) - 1) * W.EULAR_DT)      # the cells of the last, incomplete interval do not exist
        if t < 0:
            return
        mode = r.choice(["density_speed", "flow_delay"])
        left = r.choice([0, 1])
        lo, hi = 0.5, 12
        cap = s.ask("network-detailed", lambda: W.analyzer.network(t, detailed=1, state_variables=mode, left_handed=left, minwidth=lo, maxwidth=hi))
        if not cap:
            return
        ax = cap.figs[0]["axes"][0]
        s.nodes_drawn(ax, "network(detailed)")
        got = [ln for ln in ax["lines"] if ln["ls"] == "-" and len(ln["x"]) == 2]
        i = 0
        for l in W.LINKS:
            n = np.asarray(l.k_mat).shape[1] - 1
            row = int(t / l.edie_dt)
            for j in range(max(0, n - 1)):
                if i >= len(got):
                    s.bad("network", f"network(detailed): {len(got)} cells drawn, more exist")
                    return
                ln = got[i]
                i += 1
                v = float(l.v_mat[row, j + 1])
                if mode == "density_speed":
                    w = float(l.k_mat[row, j + 1]) / l.kappa * (hi * l.number_of_lanes - lo) + lo
                    col = plt.colormaps["viridis"](v / l.u)
                else:
                    w = float(l.q_mat[row, j + 1]) / l.capacity * (hi * l.number_of_lanes - lo) + lo
                    if v <= 0:
                        continue
                    col = plt.colormaps["jet"](min(0.9, max(0.1, (l.u / v - 1) / 2)))
                if not near(ln["lw"], w, 1e-6) or any(abs(a - b) > 0.02 for a, b in zip(ln["color"], col)):
                    s.bad("network", f"network(detailed) at t={t}, {mode}: cell {j + 1} of {l.name} has width {ln['lw']}, colour {ln['color']}, the cell values say {w}, {col}; {s.where()}")
                    return
                s.obs += 1
        if i != len(got):
            s.bad("network", f"network(detailed): {len(got)} cells drawn, {i} expected")

    def network_average(s):
        import matplotlib.pyplot as plt
        W = s.W
        left = s.r.choice([0, 1])
        lo, hi = s.r.choice([(0.5, 12), (1, 5)])
        cap = s.ask("network-average", lambda: W.analyzer.network_average(left_handed=left, minwidth=lo, maxwidth=hi))
        if not cap:
            return
        ax = cap.figs[0]["axes"][0]
        s.nodes_drawn(ax, "network_average")
        got = [ln for ln in ax["lines"] if ln["ls"] == "-" and len(ln["x"]) == 4]
        if len(got) != len(W.LINKS):
            s.bad("network-average", f"{len(got)} links drawn, {len(W.LINKS)} exist")
            return
        df = W.analyzer.link_to_pandas()
        vols = {a: float(b) for a, b in zip(df["link"], df["traffic_volume"])}
        att = {a: float(b) for a, b in zip(df["link"], df["average_travel_time"])}
        ftt = {a: float(b) for a, b in zip(df["link"], df["free_travel_time"])}
        vmax = max(vols.values())
        if vmax <= 0:
            return
        for ln, l in zip(got, W.LINKS):
            gx, gy = s.geometry(l, left)
            w = vols[l.name] / vmax * hi + lo
            ok = same_xy(ln, gx, gy) and near(ln["lw"], w, 1e-6)
            ratio = att[l.name] / ftt[l.name] - 1
            col = None
            if ratio == ratio:
                col = plt.colormaps["jet"](min(0.9, max(0.1, ratio)))
                ok = ok and all(abs(a - b) <= 0.02 for a, b in zip(ln["color"], col))
            s.obs += 1
            if not ok:
                s.bad("network-average", f"network_average: link {l.name} (volume {vols[l.name]} of {vmax}, delay {ratio}) has width {ln['lw']} and colour {ln['color']}, expected {w}, {col}")
                return

    def show_network(s):
        W = s.W
        left = s.r.choice([0, 1])
        cap = s.ask("show-network", lambda: W.show_network(left_handed=left, show_id=s.r.random() < 0.5))
        if not cap:
            return
        ax = cap.figs[0]["axes"][0]
        s.nodes_drawn(ax, "show_network")
        got = [ln for ln in ax["lines"] if len(ln["x"]) == 4]
        if len(got) != len(W.LINKS):
            s.bad("network", f"show_network: {len(got)} links drawn, {len(W.LINKS)} exist")
            return
        for ln, l in zip(got, W.LINKS):
            if not same_xy(ln, *s.geometry(l, left)):
                s.bad("network", f"show_network: link {l.name} is drawn at {list(zip(ln['x'], ln['y']))}")
        lab = [q[0] for q in ax["texts"]]
        for o in W.NODES + W.LINKS:
            if not any(q == o.name or q == f"{o.id}: {o.name}" for q in lab):
                s.bad("network", f"show_network: no label for {o.name}")

    def pil_frame(s, ops, t, mode, left, lo, hi, what):
        W = s.W
        lines = [o for o in ops if o[0] == "line" and len(o[1]) == 4]
        if len(lines) != len(W.LINKS):
            s.bad("pillow", f"{what} at t={t}: {len(lines)} links drawn, {len(W.LINKS)} exist")
            return
        # one scale and offset for all links, the same in both directions, y upside down
        pts = []
        for o, l in zip(lines, W.LINKS):
            gx, gy = s.geometry(l, left)
            pts += [(a, b, p[0], p[1]) for a, b, p in zip(gx, gy, o[1])]
        A = np.array(pts)
        X = np.concatenate([np.stack([A[:, 0], np.ones(len(A)), np.zeros(len(A))], 1), np.stack([-A[:, 1], np.zeros(len(A)), np.ones(len(A))], 1)])
        Y = np.concatenate([A[:, 2], A[:, 3]])
        sol, *_ = np.linalg.lstsq(X, Y, rcond=None)
        err = np.abs(X @ sol - Y).max()
        if err > 1e-3 * max(1.0, np.abs(Y).max()) * 1e-2 or sol[0] <= 0:
            s.bad("pillow", f"{what} at t={t}: the drawn links are not the network's shape (error {err:.3g} pixels, scale {sol[0]:.3g}); {s.where()}")
        for o, l in zip(lines, W.LINKS):
            w, col = s.expected(l, t, mode, lo * 2, hi * 2, lanes=False)
            rgb = tuple(int(q * 255) for q in col[:3])
            if abs(o[3] - w) > 1.001 or max(abs(a - b) for a, b in zip(o[2], rgb)) > 4:
                s.bad("pillow", f"{what} at t={t}, {mode}: link {l.name} has width {o[3]}, colour {o[2]}, the recorded counts and travel time say {w:.3f}, {rgb}; {s.where()}")
                return
            s.obs += 1

    def pillow(s):
        W, r = s.W, s.r
        t = s.time()
        mode = r.choice(["density_speed", "flow_delay", "density_flow"])
        left = r.choice([0, 1])
        cap = s.ask("pillow", lambda: W.analyzer.network_pillow(t, state_variables=mode, left_handed=left, figsize=r.choice([2, (2, 2)]), legend=r.random() < 0.5, network_font_size=r.choice([0, 10])), 0)
        if not cap:
            return
        if len(cap.frames) != 1 or len(cap.saved) != 1:
            s.bad("not-drawn", f"network_pillow at t={t}: {len(cap.frames)} pictures, saved {cap.saved}; {s.where()}")
            return
        s.pil_frame(cap.frames[0][1], t, mode, left, 0.5, 12, "network_pillow")

    def anim(s):
        W, r = s.W, s.r
        if W.TMAX < W.EULAR_DT:
            return
        mode = r.choice(["density_speed", "flow_delay"])
        skip = r.choice([10, 24, 40, max(1, W.TSIZE // 3)])
        fn = r.choice([None, "sub/a.gif"])
        cap = s.ask("anim", lambda: W.analyzer.network_anim(state_variables=mode, timestep_skip=skip, figsize=(2, 2), legend=False, network_font_size=0, file_name=fn), 0)
        if not cap:
            return
        want = [i * W.DELTAT for i in range(0, W.TSIZE, skip)]
        # times in an aggregation interval that is not complete may be left out
        while len(want) > max(1, len(cap.frames)) and want[-1] >= int(W.TMAX / W.EULAR_DT) * W.EULAR_DT:
            want.pop()
        gif = [x for x in cap.saved if x[0].endswith(".gif")]
        if len(cap.frames) != len(want) or len(gif) != 1 or gif[0][1] != len(want) or not os.path.isfile(gif[0][0]):
            s.bad("not-drawn", f"network_anim, every {skip} steps of {W.TSIZE}: {len(cap.frames)} frames drawn, {len(want)} expected, files {cap.saved[-2:]}; {s.where()}")
            return
        if fn and gif[0][0] != fn:
            s.bad("file", f"file_name={fn!r} given, saved as {gif[0][0]!r}")
        for (title, ops), t in zip(cap.frames, want):
            s.pil_frame(ops, t, mode, 1, 0.5, 12, "network_anim")
            try:
                shown = float(title.split("=")[1].split("(")[0])
            except ValueError:
                shown = None
            if shown is None or abs(shown - t) > 1:
                s.bad("anim", f"the frame of t={t} is titled {title!r}")

    def fancy(s):
        W, r = s.W, s.r
        state = repr(W.rng.bit_generator.state)
        speed = max(2, W.TSIZE // 6)
        cap = s.ask("fancy", lambda: W.analyzer.network_fancy(sample_ratio=r.choice([1, 0.5]), interval=r.choice([3, 5]), speed_coef=speed, figsize=2, antialiasing=r.random() < 0.5), 0)
        if not cap:
            return
        n = len(range(0, W.TSIZE, speed))
        gif = [x for x in cap.saved if x[0].endswith(".gif")]
        if len(cap.frames) != n or len(gif) != 1 or gif[0][1] != n:
            s.bad("not-drawn", f"network_fancy, every {speed} steps of {W.TSIZE}: {len(cap.frames)} frames, {n} expected, files {[x for x in cap.saved][-2:]}; {s.where()}")
            return
        for _, ops in cap.frames:
            g = [o for o in ops if o[0] == "line" and o[2] == (200, 200, 200)]
            if len(g) != len(W.LINKS):
                s.bad("pillow", f"network_fancy: {len(g)} links drawn, {len(W.LINKS)} exist")
                break
        if repr(W.rng.bit_generator.state) != state:
            s.bad("random", "network_fancy changed the state of the world's random number generator")

    # -- others
    def mfd(s):
        W, r = s.W, s.r
        ls = list(W.LINKS) if r.random() < 0.5 else r.sample(W.LINKS, r.randint(1, len(W.LINKS)))
        full = len(ls) == len(W.LINKS)
        cap = s.ask("mfd", lambda: W.analyzer.macroscopic_fundamental_diagram(**({} if full and r.random() < 0.5 else dict(links=[l if r.random() < 0.5 else l.name for l in ls]))))
        if not cap:
            return
        ln = [x for x in cap.figs[0]["axes"][0]["lines"]]
        n = max(np.asarray(l.tn_mat).shape[0] for l in ls)
        area = sum(l.edie_dx * np.asarray(l.tn_mat).shape[1] * W.EULAR_DT for l in ls)
        if len(ln) != 1:
            s.bad("mfd", f"{len(ln)} curves")
            return
        if area <= 0:
            return
        k = [sum(float(np.sum(l.tn_mat[i])) for l in ls) / area for i in range(n)]
        q = [sum(float(np.sum(l.dn_mat[i])) for l in ls) / area for i in range(n)]
        m = len(ln[0]["x"])
        if m not in (n, n - 1) or not same_xy(ln[0], k[:m], q[:m], 1e-6):
            j = next((i for i in range(min(m, n)) if not near(float(ln[0]["x"][i]), k[i], 1e-6) or not near(float(ln[0]["y"][i]), q[i], 1e-6)), None)
            s.bad("mfd", f"diagram over {len(ls)} links: {m} points drawn, {n} intervals; first difference at {j}; {s.where()}")
        s.obs += m

    def steps_of(s, v):
        t, names = [], []
        for a, st, l in zip(v.log_t, v.log_state, v.log_link):
            if st != "home":
                t.append(float(a))
                names.append(l.name if hasattr(l, "name") else l if isinstance(l, str) and l else "not in network")
        return t, names

    def vehicle(s):
        W, r = s.W, s.r
        if not W.VEHICLES:
            return
        v = r.choice(list(W.VEHICLES.values()))
        cap = s.ask("vehicle", lambda: W.analyzer.plot_vehicle_log(v.name))
        if not cap:
            return
        f = cap.figs[0]
        t, names = s.steps_of(v)
        lines = [ln for ax in f["axes"] for ln in ax["lines"]]
        if len(lines) != 1 or not all(near(float(a), b) for a, b in zip(lines[0]["x"], t)) or [str(x) for x in lines[0]["y"]] != names:
            s.bad("vehicle", f"plot_vehicle_log({v.name}): links drawn {list(map(str, lines[0]['y']))[:4] if lines else None}…, logged {names[:4]}…")
        polys = [p for ax in f["axes"] for c in ax["polys"] for p in c]
        verts = {(round(float(a), 6), round(float(b), 6)) for p in polys for a, b in p}
        miss = [(a, b) for a, b in zip(v.log_t, v.log_v) if (round(float(a), 6), round(float(b), 6)) not in verts]
        if miss:
            s.bad("vehicle", f"plot_vehicle_log({v.name}): the speeds logged at {miss[:3]} are not drawn")
        s.obs += len(t)

    def vehicles(s):
        W, r = s.W, s.r
        if not W.VEHICLES:
            return
        vs = r.sample(list(W.VEHICLES.values()), min(len(W.VEHICLES), r.randint(1, 4)))
        cap = s.ask("vehicles", lambda: W.analyzer.plot_vehicles_log([v.name for v in vs]))
        if not cap:
            return
        lines = cap.figs[0]["axes"][0]["lines"]
        if len(lines) != len(vs):
            s.bad("vehicle", f"plot_vehicles_log: {len(lines)} curves for {len(vs)} vehicles")
            return
        for ln, v in zip(lines, vs):
            t, names = s.steps_of(v)
            if len(ln["x"]) != len(t) or not all(near(float(a), b) for a, b in zip(ln["x"], t)) or [str(x) for x in ln["y"]] != names:
                s.bad("vehicle", f"plot_vehicles_log: vehicle {v.name}: {len(ln['x'])} points drawn, {len(t)} logged")

    def script(s):
        r = s.r
        job = s.job
        opts = dict(max_platoons=60, p_vehicles=0.5, frac_tmax=0.3, no_toll=True)
        spec = scen.generate(job["seed"], **opts)
        w = spec["world"]
        dt = w["deltan"] * w["reaction_time"]
        z = r.random()
        if z < 0.35 and float(dt).is_integer():
            w["reaction_time"] = int(w["reaction_time"]) if float(w["reaction_time"]).is_integer() else w["reaction_time"]
            w["tmax"] = int(w["tmax"])
        elif z < 0.5:
            w["tmax"] = float(w["tmax"])
        w.update(print_mode=0, save_mode=1, show_mode=0, name="p34")
        if r.random() < 0.12:
            flip = r.random() < 0.6
            for i, n in enumerate(spec["nodes"]):
                n["x"], n["y"] = (3, i) if flip else (i, 3)
            s.c["vertical" if flip else "horizontal"] += 1
        s.c["scenarios-cpp" if s.cpp else "scenarios-python"] += 1
        s.spec = spec
        s.W = W = scen.build_world(spec, s.cpp)
        if not isinstance(W.DELTAT, int):
            s.c["float-step"] += 1
        if not isinstance(W.TMAX, int):
            s.c["float-duration"] += 1
        s.show_network()
        mid = r.random() < 0.3
        full = [s.traj, s.traj_links, s.density, s.cumulative, s.network_simple, s.network_detailed, s.network_average, s.mfd, s.vehicle, s.vehicles, s.pillow]
        if mid:
            s.c["mid-run"] += 1
            W.exec_simulation(until_t=max(3 * W.DELTAT, w["tmax"] * r.uniform(0.2, 0.8)))
            s.vis = s.visits()
            if W.check_simulation_ongoing():
                for f in r.sample([s.traj, s.cumulative, s.network_simple, s.vehicle, s.traj_links, s.pillow, s.mfd, s.density], 4):
                    f()
                    if s.v:
                        return
        W.exec_simulation()
        if W.TMAX != W.TSIZE * W.DELTAT:
            s.c["fraction-duration"] += 1
        s.vis = s.visits()
        fs = r.sample(full, 7)
        if r.random() < 0.5:
            fs.append(s.anim)
        if r.random() < 0.25:
            fs.append(s.fancy)
        for f in fs:
            f()
            if s.v:
                return


def run(job):
    import matplotlib
    matplotlib.use("Agg")
    s = C(job)
    d = tempfile.mkdtemp(prefix="vmon34-")
    old = os.getcwd()
    try:
        os.chdir(d)
        with env.quiet():
            s.script()
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    s.c["values-compared"] = s.obs
    res = dict(viol=s.v, count=dict(s.c))
    if any(l.cum_arrival[-1] > 0 for l in s.W.LINKS if len(l.cum_arrival)):
        res["sig"] = digest.hexdigest(digest.capture(s.W))
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if s.cpp else "python", tmax=s.W.TMAX, step=s.W.DELTAT, figures={k: n for k, n in s.c.items() if k.startswith("fig-")}, values=s.obs)
    return res
