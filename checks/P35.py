"""P35 result viewer: the window shows the recorded results, frame by frame."""
import math, os, random, re, shutil, sys, tempfile, time, warnings
import xml.etree.ElementTree as ET
from collections import Counter
import numpy as np
from vmon import scen, env, digest, forked

TECHNIQUE = "runtime monitoring of the real window: it is opened on an off-screen display, driven through its own slider, buttons, menus and dialogs, and everything it paints is recorded as vector drawing and compared with cell states, logs and tables"
LEVEL_NOTE = "Exploration of sampled scenarios and sequences of user actions, both engines. The toolkit's own behaviour (pixels, zoom, drag) is not looked at."
ASSUME = ["the run has ended; at least one aggregation interval long, and node positions span a positive extent", "colours follow viridis of speed relative to free speed, widths the density relative to jam density and the number of lanes"]
RULE = ("Scenarios by seed on both engines; slider moved to first, last and random frames, play and stop, curve direction, names on and off, vehicles highlighted one after another (existing, unknown), data tables, context menus of links, exports. "
        "Non-trivial: at least one vehicle entered a link; distinct by the final picture of the world.")
REQUIRED = ["frames", "frame-first", "frame-last", "segments", "segments-with-traffic", "nodes-drawn", "play", "curve-right", "curve-left", "names-off", "highlight", "highlight-second", "highlight-dots", "unknown-vehicle", "tables", "table-cells", "context-menu", "export", "blocking", "scenarios-python", "scenarios-cpp"]
BUDGET = dict(quick=60, thorough=800)


def jobs(tier, seed):
    n = 240 if tier == "quick" else 5000
    base = seed * 1_000_003 + 35 * 20_011
    return [dict(seed=(base + i) % (1 << 31), cpp=i % 3 == 2, so="plain" if i % 3 == 2 else None, timeout=240) for i in range(n)]


def prepare():
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    os.environ.setdefault("XDG_RUNTIME_DIR", tempfile.gettempdir())
    import PyQt5.QtWidgets, PyQt5.QtSvg      # before the workers are forked; no application object yet


MAT = re.compile(r"matrix\(([^)]*)\)")
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def svg_ops(text):
    """-> list of ('seg', p, q, colour, width) / ('dot', centre, radius, fill) / ('text', name, colour), in scene coordinates"""
    root = ET.fromstring(text)
    out = []

    def tr(m, x, y):
        return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])

    def go(e, st):
        st = dict(st)
        for k in ("stroke", "stroke-width", "fill", "stroke-opacity"):
            if e.get(k) is not None:
                st[k] = e.get(k)
        if e.get("transform"):
            st["m"] = [float(x) for x in NUM.findall(MAT.search(e.get("transform")).group(1))]
        m = st.get("m", [1, 0, 0, 1, 0, 0])
        tag = e.tag.split("}")[-1]
        if tag == "path":
            n = [float(x) for x in NUM.findall(e.get("d"))]
            ps = [tr(m, n[i], n[i + 1]) for i in range(0, len(n) - 1, 2)]
            if "C" in e.get("d"):
                out.append(("curve", ps, st.get("stroke"), float(st.get("stroke-width", 1))))
            else:
                for p, q in zip(ps, ps[1:]):
                    out.append(("seg", p, q, st.get("stroke"), float(st.get("stroke-width", 1))))
        elif tag in ("polyline", "line"):
            n = [float(x) for x in NUM.findall(e.get("points") or " ".join(e.get(k) for k in ("x1", "y1", "x2", "y2")))]
            ps = [tr(m, n[i], n[i + 1]) for i in range(0, len(n) - 1, 2)]
            for p, q in zip(ps, ps[1:]):
                out.append(("seg", p, q, st.get("stroke"), float(st.get("stroke-width", 1))))
        elif tag in ("circle", "ellipse"):
            out.append(("dot", tr(m, float(e.get("cx")), float(e.get("cy"))), float(e.get("r") or e.get("rx")), st.get("fill")))
        elif tag == "text":
            out.append(("text", "".join(e.itertext()).strip(), e.get("fill") or st.get("stroke"), tr(m, float(e.get("x", 0)), float(e.get("y", 0)))))
        for c in e:
            go(c, st)
    go(root, {})
    return out


def rgb(c):
    return tuple(int(c[i:i + 2], 16) for i in (1, 3, 5)) if c and re.fullmatch("#[0-9a-fA-F]{6}", c) else None


class V:
    def __init__(s, job):
        s.job, s.cpp = job, job["cpp"]
        s.r = random.Random(job["seed"] * 6151 + 35)
        s.c, s.v = Counter(), []

    def bad(s, rule, msg):
        if len(s.v) < 4:
            s.v.append((rule, msg + f"; {'C++' if s.cpp else 'Python'} engine, TMAX={s.W.TMAX!r}, step {s.W.DELTAT!r}, {len(s.W.LINKS)} links"))

    def script(s):
        r, job = s.r, s.job
        spec = scen.generate(job["seed"], max_platoons=60, p_vehicles=0.5, frac_tmax=0.3, no_toll=True, big=False)
        w = spec["world"]
        dt = w["deltan"] * w["reaction_time"]
        w.update(print_mode=0, save_mode=1, show_mode=0, name="p35")
        if r.random() < 0.1:
            flip = r.random() < 0.5
            for i, n in enumerate(spec["nodes"]):
                n["x"], n["y"] = (3, i) if flip else (i, 3)
        s.spec = spec
        s.W = W = scen.build_world(spec, s.cpp)
        W.exec_simulation()
        s.c["scenarios-cpp" if s.cpp else "scenarios-python"] += 1
        xs, ys = [n.x for n in W.NODES], [n.y for n in W.NODES]
        if W.TMAX < W.EULAR_DT or max(max(xs) - min(xs), max(ys) - min(ys)) <= 0:
            return
        before = digest.capture(W)
        s.open()
        if s.v or s.win is None:
            return
        acts = [s.frame, s.frame, s.frame, s.highlight, s.highlight, s.tables, s.menu_of_link, s.play, s.curve, s.names]
        r.shuffle(acts)
        if r.random() < 0.3:
            acts.append(s.export)
        for a in acts:
            a()
            if s.err:
                s.bad("exception", f"{a.__name__}: " + s.err[0])
            if s.v:
                return
        diff = digest.compare(before, digest.capture(W)) if hasattr(digest, "compare") else None
        if diff:
            s.bad("changed", f"looking at the results changed them: {str(diff)[:200]}")

    # -- the window
    def open(s):
        from PyQt5 import QtWidgets, QtCore
        s.Q, s.QC = QtWidgets, QtCore
        s.err, s.asked, s.warned = [], [], []

        def hook(t, e, tb):
            import traceback
            f = traceback.extract_tb(tb)[-1]
            s.err.append(f"{t.__name__}: {str(e)[:200]} ({os.path.basename(f.filename)}:{f.name})")
        sys.excepthook = hook
        QtWidgets.QInputDialog.getText = staticmethod(lambda *a, **k: s.answer)
        for nm in ("warning", "information", "critical"):
            setattr(QtWidgets.QMessageBox, nm, staticmethod(lambda *a, **k: s.warned.append(a[1:])))
        QtWidgets.QMessageBox.exec_ = lambda *a: s.warned.append(a)
        from uxsim.ResultGUIViewer import launch_World_viewer
        if s.r.random() < 0.15:
            s.c["blocking"] += 1
            shown = []

            def ex(*a):
                shown.append(len([x for x in QtWidgets.QApplication.topLevelWidgets() if isinstance(x, QtWidgets.QMainWindow) and x.isVisible()]))
                return 0
            QtWidgets.QApplication.exec_ = QtWidgets.QApplication.exec = staticmethod(ex)
            try:
                launch_World_viewer(s.W)
            except SystemExit:
                pass
            if shown != [1]:
                s.bad("blocking", f"launch_World_viewer(W) should show its window until it is closed; windows shown while waiting: {shown}")
            s.win = None
            return
        else:
            s.app, s.win = launch_World_viewer(s.W, return_app_window=True)
        if not s.win.isVisible():
            s.bad("window", "the window is not shown")
        s.view = s.win.findChild(QtWidgets.QGraphicsView)
        s.slider = s.win.findChild(QtWidgets.QSlider)
        s.dir = None
        s.shown_names = True
        s.high = None
        W = s.W
        s.n = np.asarray(W.LINKS[0].k_mat).shape[0]
        if (s.slider.minimum(), s.slider.maximum()) != (0, s.n - 1):
            s.bad("slider", f"slider from {s.slider.minimum()} to {s.slider.maximum()}, there are {s.n} frames")
        if s.n not in (int(W.TMAX / W.EULAR_DT), int(W.TMAX / W.EULAR_DT) + 1):
            s.bad("slider", f"{s.n} frames for {W.TMAX} s in intervals of {W.EULAR_DT} s")
        xs, ys = [n.x for n in W.NODES], [n.y for n in W.NODES]
        sc = 760 / max(max(xs) - min(xs), max(ys) - min(ys))
        s.pos = {n.name: ((n.x - min(xs)) * sc + 20, (max(ys) - n.y) * sc + 20) for n in W.NODES}
        s.check(s.slider.value(), "after opening")

    def ops(s):
        from PyQt5.QtSvg import QSvgGenerator
        from PyQt5.QtCore import QBuffer
        from PyQt5.QtGui import QPainter
        b = QBuffer()
        b.open(QBuffer.ReadWrite)
        g = QSvgGenerator()
        g.setOutputDevice(b)
        p = QPainter(g)
        rect = s.view.scene().itemsBoundingRect().adjusted(-50, -50, 50, 50)
        s.view.scene().render(p, rect, rect)
        p.end()
        txt = bytes(b.data()).decode(errors="replace")
        if s.err:
            return None
        return svg_ops(txt)

    def path(s, l, d):
        from PyQt5.QtGui import QPainterPath
        from PyQt5.QtCore import QPointF
        a, b = s.pos[l.start_node.name], s.pos[l.end_node.name]
        dx, dy = b[0] - a[0], b[1] - a[1]
        L = math.hypot(dx, dy)
        p = QPainterPath(QPointF(*a))
        if L == 0:
            return None
        p.quadTo(QPointF((a[0] + b[0]) / 2 - dy / L * L / 10 * d, (a[1] + b[1]) / 2 + dx / L * L / 10 * d), QPointF(*b))
        return p

    def expected(s, t, d):
        import matplotlib
        cm = matplotlib.colormaps["viridis"]
        out = []
        for l in s.W.LINKS:
            p = s.path(l, d)
            if p is None:
                continue
            k, v = np.asarray(l.k_mat), np.asarray(l.v_mat)
            n = k.shape[1]
            for i in range(n):
                A, B = p.pointAtPercent(i / n), p.pointAtPercent((i + 1) / n)
                c = cm(float(v[t, i]) / l.u)
                out.append((l.name, i, (A.x(), A.y()), (B.x(), B.y()), tuple(int(q * 255) for q in c[:3]), float(k[t, i]) / l.kappa * l.number_of_lanes * 9.5 + 0.5))
                if k[t, i] > 0:
                    s.c["segments-with-traffic"] += 1
        return out

    def match(s, segs, want):
        """-> None or the first expected segment that is not painted"""
        idx = {}
        for g in segs:
            key = (round((g[1][0] + g[2][0]) / 2 / 4), round((g[1][1] + g[2][1]) / 2 / 4))
            idx.setdefault(key, []).append(g)
        used = set()
        for w in want:
            mx, my = (w[2][0] + w[3][0]) / 8, (w[2][1] + w[3][1]) / 8
            best = None
            for i in {math.floor(mx), math.ceil(mx), round(mx)}:
                for j in {math.floor(my), math.ceil(my), round(my)}:
                    for g in idx.get((i, j), ()):
                        if id(g) in used or max(abs(a - b) for a, b in zip(g[1] + g[2], w[2] + w[3])) > 0.02:
                            continue
                        col = rgb(g[3])
                        if col and max(abs(a - b) for a, b in zip(col, w[4])) <= 2 and abs(g[4] - w[5]) <= 1e-4 * max(1, w[5]):
                            used.add(id(g))
                            best = True
                            break
                        best = g
                    if best is True:
                        break
                if best is True:
                    break
            if best is not True:
                return w, best
        if len(used) != len(segs):
            rest = [g for g in segs if id(g) not in used]
            return None, rest[0]
        return None

    def check(s, t, what):
        """everything painted now is frame t"""
        W = s.W
        ops = s.ops()
        if ops is None:
            s.bad("exception", f"{what}, painting frame {t}: {s.err[0]}")
            return
        s.c["frames"] += 1
        if t == 0:
            s.c["frame-first"] += 1
        if t == s.n - 1:
            s.c["frame-last"] += 1
        segs = [o for o in ops if o[0] == "seg"]
        dirs = [s.dir] if s.dir else [-1, 1]
        res = None
        for d in dirs:
            m = s.match(segs, s.expected(t, d))
            if m is None:
                s.dir = d
                break
            res = res or m
        else:
            w, g = res
            if w is None:
                s.bad("links", f"{what}, frame {t}: painted besides the {len(segs)} cells: {g}")
            else:
                s.bad("links", f"{what}, frame {t} (from {t * W.EULAR_DT} s): cell {w[1]} of link {w[0]} should be painted from {w[2]} to {w[3]} in colour {w[4]}, width {w[5]:.5g}; painted there: {g}")
            return
        s.c["segments"] += len(segs)
        white = [o for o in ops if o[0] == "dot" and rgb(o[3]) == (255, 255, 255)]
        P = sorted((round(x, 1), round(y, 1)) for x, y in s.pos.values())
        G = sorted((round(o[1][0], 1), round(o[1][1], 1)) for o in white)
        if len(P) != len(G) or any(math.hypot(a[0] - b[0], a[1] - b[1]) > 0.25 for a, b in zip(P, G)):
            s.bad("nodes", f"{what}: nodes painted at {G[:6]} ({len(G)}), expected {P[:6]} ({len(P)})")
        s.c["nodes-drawn"] += len(G)
        names = [o for o in ops if o[0] == "text"]
        if s.shown_names:
            want = Counter([n.name for n in W.NODES] + [l.name for l in W.LINKS if s.path(l, 1) is not None])
            got = Counter(o[1] for o in names)
            for l in W.LINKS:
                if s.path(l, 1) is None:
                    got[l.name] = max(0, got[l.name] - 1)
            want, got = +want, +got
            if got != want:
                s.bad("names", f"{what}: names written {sorted((got - want).items())[:4]} too many, {sorted((want - got).items())[:4]} missing")
            for o in names:
                n = W.get_node(o[1]) if o[1] in s.pos and o[1] not in s.lnames() else None
                if n and math.hypot(o[3][0] - s.pos[n.name][0], o[3][1] - s.pos[n.name][1]) > 30:
                    s.bad("names", f"{what}: the name of node {n.name} is written at {o[3]}, the node is at {s.pos[n.name]}")
        elif names:
            s.bad("names", f"{what}: names are switched off, but {[o[1] for o in names][:3]} is written")
        # label
        import PyQt5.QtWidgets as Q
        lab = [x.text() for x in s.win.findChildren(Q.QLabel) if re.fullmatch(r"[\d.e+]+/[\d.e+]+", x.text())]
        if len(lab) != 1 or abs(float(lab[0].split("/")[0]) - t * W.EULAR_DT) > 1e-6 * (1 + t * W.EULAR_DT) or abs(float(lab[0].split("/")[1]) - s.n * W.EULAR_DT) > 1e-6 * s.n * W.EULAR_DT:
            s.bad("label", f"{what}: frame {t} is labelled {lab}, it starts at {t * W.EULAR_DT} s of {s.n * W.EULAR_DT}")
        s.dots(ops, t, what)

    def lnames(s):
        return {l.name for l in s.W.LINKS}

    def log(s, v):
        out = []
        W = s.W
        for t, x, l in zip(v.log_t, v.log_x, v.log_link):
            nm = l.name if hasattr(l, "name") else l if isinstance(l, str) else None
            if nm in (None, "", -1, "-1"):
                continue
            L = W.get_link(nm)
            p = s.path(L, s.dir_at_high)
            if p is not None:
                q = p.pointAtPercent(min(1.0, max(0.0, float(x) / L.length)))
                f = float(t) / W.EULAR_DT
                fr = {int(f), int(f + 1e-9), int(f - 1e-9) if f > 0 else 0}
                q2 = s.path(L, s.dir).pointAtPercent(min(1.0, max(0.0, float(x) / L.length)))
                out.append((fr, (q2.x(), q2.y())))
        return out

    def dots(s, ops, t, what):
        red = [o[1] for o in ops if o[0] == "dot" and rgb(o[3]) == (255, 0, 0)]
        if s.high is None:
            if red:
                s.bad("vehicle", f"{what}, frame {t}: {len(red)} vehicle marks, no vehicle is highlighted")
            return
        log = s.log(s.W.VEHICLES[s.high])
        must = [p for fr, p in log if fr == {t}]
        may = [p for fr, p in log if t in fr]
        left = list(may)

        def take(p):
            for q in left:
                if math.hypot(p[0] - q[0], p[1] - q[1]) < 0.3:
                    left.remove(q)
                    return True
            return False
        extra = [p for p in red if not take(p)]
        if s.fresh:
            # the chosen vehicle's whole way may be shown until a frame is chosen
            allp = [p for _, p in log]
            extra = [p for p in extra if not any(math.hypot(p[0] - q[0], p[1] - q[1]) < 0.3 for q in allp)]
        left2 = list(red)
        missing = []
        for p in must:
            q = next((q for q in left2 if math.hypot(p[0] - q[0], p[1] - q[1]) < 0.3), None)
            if q is None:
                missing.append(p)
            else:
                left2.remove(q)
        s.c["highlight-dots"] += len(must)
        if extra or missing:
            s.bad("vehicle", f"{what}, frame {t}: vehicle {s.high} was logged {len(may)} times on a link in this interval; missing marks {missing[:2]} ({len(missing)}), marks where it was not {extra[:2]} ({len(extra)} of {len(red)})")

    # -- actions
    def action(s, text):
        for a in s.win.findChildren(s.Q.QAction):
            if a.text() == text:
                a.trigger()
                s.app.processEvents()
                return True
        s.bad("menu", f"no menu entry {text!r}")

    def frame(s):
        t = s.r.choice([0, s.n - 1, s.r.randrange(s.n), s.r.randrange(s.n)])
        if s.slider.value() == t:
            t = (t + 1) % s.n
        if s.slider.value() != t:
            s.fresh = False
        s.slider.setValue(t)
        s.app.processEvents()
        s.check(s.slider.value(), "after moving the slider")

    def curve(s):
        if s.high is not None and s.n == 1:
            return
        d = s.r.choice([1, -1])
        s.c["curve-right" if d == 1 else "curve-left"] += 1
        s.action("Right-handed" if d == 1 else "Left-handed")
        s.dir = d
        if s.high is not None:            # marks follow with the next frame
            s.frame()
        else:
            s.check(s.slider.value(), f"after choosing direction {d}")

    def names(s):
        for on in (False, True):
            s.c["names-on" if on else "names-off"] += 1
            s.action("Show Names")
            s.shown_names = on
            s.check(s.slider.value(), f"after switching names {'on' if on else 'off'}")

    fresh = False
    dir_at_high = 1

    def highlight(s):
        r, W = s.r, s.W
        if r.random() < 0.25 or not W.VEHICLES:
            s.c["unknown-vehicle"] += 1
            s.answer = ("no such vehicle", True)
            n = len(s.warned)
            s.action("Highlight Vehicle by ID")
            if len(s.warned) == n and not s.err:
                s.bad("vehicle", "an unknown vehicle was asked for without any message")
            s.check(s.slider.value(), "after asking for an unknown vehicle")
            return
        if r.random() < 0.1:
            s.answer = (r.choice(list(W.VEHICLES)), False)
            s.action("Highlight Vehicle by ID")
            s.check(s.slider.value(), "after cancelling the question")
            return
        vs = [v for v in W.VEHICLES if len(W.VEHICLES[v].log_t) > 3] or list(W.VEHICLES)
        nm = r.choice(vs)
        s.answer = (nm, True)
        s.c["highlight" if s.high is None else "highlight-second"] += 1
        s.action("Highlight Vehicle by ID")
        s.high, s.fresh, s.dir_at_high = nm, True, s.dir
        if s.err:
            return
        s.check(s.slider.value(), f"after highlighting {nm}")
        ts = sorted({next(iter(fr)) for fr, _ in s.log(W.VEHICLES[nm])})
        for t in r.sample(ts, min(2, len(ts))) + [r.randrange(s.n)]:
            if s.v or not 0 <= t < s.n:
                return
            if s.slider.value() != t:
                s.fresh = False
            s.slider.setValue(t)
            s.app.processEvents()
            s.check(t, f"with vehicle {nm} highlighted")

    def tables(s):
        W, r = s.W, s.r
        A = W.analyzer
        for text, f in r.sample([("Basic Statistics", A.basic_to_pandas), ("Link Statistics", A.link_to_pandas), ("OD Demand Statistics", A.od_to_pandas), ("Vehicle Trip Statistics", A.vehicle_trip_to_pandas), ("Vehicle Detailed Statistics", A.vehicles_to_pandas)], 2):
            old = set(s.win.findChildren(s.Q.QTableView))
            s.action(text)
            if s.err or s.v:
                return
            new = [x for x in s.win.findChildren(s.Q.QTableView) + [y for w in s.app.topLevelWidgets() for y in w.findChildren(s.Q.QTableView)] if x not in old]
            new = list({id(x): x for x in new}.values())
            if len(new) != 1 or not new[0].isVisible():
                s.bad("table", f"{text}: {len(new)} tables opened")
                return
            m = new[0].model()
            df = f()
            H, D = s.QC.Qt.Horizontal, s.QC.Qt.DisplayRole
            s.c["tables"] += 1
            if (m.rowCount(), m.columnCount()) != df.shape or [m.headerData(j, H, D) for j in range(df.shape[1])] != [str(x) for x in df.columns]:
                s.bad("table", f"{text}: {m.rowCount()}x{m.columnCount()} cells shown, the table is {df.shape}; columns {[m.headerData(j, H, D) for j in range(m.columnCount())][:5]}")
                return
            cells = [(i, j) for i in range(df.shape[0]) for j in range(df.shape[1])]
            for i, j in cells if len(cells) <= 300 else r.sample(cells, 300):
                got, want = m.data(m.index(i, j), D), str(df.iloc[i, j])
                s.c["table-cells"] += 1
                if got != want:
                    s.bad("table", f"{text}: row {i}, {df.columns[j]}: shown {got!r}, the table says {want!r}")
                    return
            w = new[0].window()
            if w is not s.win:
                w.close()

    def recorded(s, name):
        import inspect
        A = s.W.analyzer
        real = getattr(A, name)
        sig = inspect.signature(real)

        def rec(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            s.calls.append((name, dict(b.arguments)))
        setattr(A, name, rec)
        return lambda: delattr(A, name) if name in vars(A) else None

    def menu_of_link(s):
        r, W = s.r, s.W
        s.calls = []
        items = [i for i in s.view.scene().items() if getattr(i, "name", None) in s.lnames() and type(i).__name__ != "NodeItem" and hasattr(i, "contextMenuEvent")]
        items = [i for i in items if type(i).contextMenuEvent is not s.Q.QGraphicsItem.contextMenuEvent]
        if not items:
            return
        it = r.choice(items)
        undo = [s.recorded(n) for n in ("time_space_diagram_traj", "time_space_diagram_density", "cumulative_curves")]
        pick, want = r.choice([("trajectories", "time_space_diagram_traj"), ("density", "time_space_diagram_density"), ("Cumulative", "cumulative_curves"), (None, None)])
        old = s.Q.QMenu.exec_

        def ex(menu, *a):
            s.c["context-menu"] += 1
            return next((x for x in menu.actions() if pick and pick in x.text()), None)
        s.Q.QMenu.exec_ = s.Q.QMenu.exec = ex

        class Ev:
            def screenPos(q):
                return s.QC.QPoint(0, 0)
        try:
            it.contextMenuEvent(Ev())
        finally:
            s.Q.QMenu.exec_ = old
            for u in undo:
                u()
        got = [(n, sorted({W.get_link(x).name for k, x in a.items() if k in ("links", "link") and x is not None})) for n, a in s.calls]
        if got != ([(want, [it.name])] if want else []):
            s.bad("menu", f"menu of link {it.name}, entry {pick}: it made {got}")

    def export(s):
        W, r = s.W, s.r
        s.c["export"] += 1
        s.calls = []
        undo = [s.recorded(n) for n in ("network_anim", "network_fancy")]
        text, want = r.choice([("Export Network Animation (link-level)", ("network_anim", 0)), ("Export Network Animation (link segment-level)", ("network_anim", 1)), ("Export Network Animation (vehicle-level)", ("network_fancy", None)), ("Export Results to CSV files", None)])
        s.action(text)
        for u in undo:
            u()
        if want:
            got = [(n, a.get("detailed")) for n, a in s.calls]
            if [(n, None if want[1] is None else int(bool(d))) for n, d in got] != [want]:
                s.bad("export", f"{text}: it made {got}")
        elif not s.err:
            files = [f for _, _, fs in os.walk(".") for f in fs if f.endswith(".csv")]
            if len(files) < 5:
                s.bad("export", f"{text}: files {files}")

    def play(s):
        s.c["play"] += 1
        b = {x.text(): x for x in s.win.findChildren(s.Q.QPushButton)}
        start = s.r.choice([0, s.n - 1, max(0, s.n - 2)])
        if s.slider.value() != start:
            s.fresh = False
        s.slider.setValue(start)
        if s.n < 2:
            return
        seen = []
        s.slider.valueChanged.connect(seen.append)
        b["Play"].click()
        if b["Play"].isEnabled() or not b["Stop"].isEnabled():
            s.bad("play", f"while playing the Play button is {'on' if b['Play'].isEnabled() else 'off'} and Stop {'on' if b['Stop'].isEnabled() else 'off'}")
        end = time.time() + 40
        while len(seen) < 3 and time.time() < end and not s.err:
            s.app.processEvents()
            time.sleep(0.005)
        b["Stop"].click()
        n = len(seen)
        s.fresh = False
        if s.err:
            return
        if seen != [(start + i) % s.n for i in range(1, n + 1)] or n < 3:
            s.bad("play", f"playing from frame {start} of {s.n} showed the frames {seen[:6]}")
        t0 = time.time()
        while time.time() < t0 + 0.25:
            s.app.processEvents()
            time.sleep(0.01)
        if len(seen) != n:
            s.bad("play", "the frames go on after Stop")
        s.slider.valueChanged.disconnect(seen.append)
        s.check(s.slider.value(), "after playing")


def work(job):
    import matplotlib
    matplotlib.use("Agg")
    s = V(job)
    d = tempfile.mkdtemp(prefix="vmon35-")
    old = os.getcwd()
    try:
        os.chdir(d)
        with env.quiet():
            s.script()
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    res = dict(viol=s.v, count=dict(s.c))
    if any(l.cum_arrival[-1] > 0 for l in s.W.LINKS if len(l.cum_arrival)):
        res["sig"] = digest.hexdigest(digest.capture(s.W))
    if job["seed"] % 37 == 0:
        res["sample"] = dict(seed=job["seed"], engine="cpp" if s.cpp else "python", tmax=s.W.TMAX, frames=s.c["frames"], segments=s.c["segments"])
    return res


def run(job):
    r, how = forked.call(work, job, 200)
    if r and "r" in r:
        r["r"]["viol"] = [tuple(x) for x in r["r"]["viol"]]
        return r["r"]
    if r and "exc" in r:
        f = r["frames"][-1]
        if any("/uxsim/" in os.path.realpath(x[0]) and "/checks/" not in x[0] and "/vmon/" not in x[0] for x in r["frames"]):
            return dict(viol=[("exception", f"{r['exc']} ({os.path.basename(f[0])}:{f[1]})")], count={}, trace=r["tb"])
        return dict(viol=[], count={}, error=r["tb"])
    if how.startswith("signal"):
        return dict(viol=[("crash", f"the process showing the window ended with {how}")], count={})
    return dict(viol=[], count={}, error=f"the process showing the window ended: {how}")
