"""P18 no data races in the parallel regions: ThreadSanitizer over the real engine."""
import ctypes, glob, hashlib, json, os, random, re, shutil, tempfile
from vmon import scen, env, build, child

TECHNIQUE = "ThreadSanitizer build of the engine on an own OpenMP runtime (plain pthreads, so every synchronisation is visible), jittered real threads, stress scenarios; a deliberate race in each process proves that the detector is live"
LEVEL_NOTE = "Exploration: happens-before race detection on the executions run; a race on code never executed is not seen. The GIL is held during steps, so concurrent Python threads cannot overlap inside the engine."
RULE = ("Scenarios by seed (grids, crossings, random nets; logging on/off, gradual and discrete route update, prescribed routes that fail in several places, tolls, chunked runs, 2-16 threads), executed under ThreadSanitizer. "
        "Non-trivial: parallel regions with more than one member ran and vehicles moved; distinct by (scenario, options, threads).")
REQUIRED = ["regions", "barriers", "selftest-race-seen", "scenarios", "vehicles", "log-off", "gradual", "errors-raised", "simultaneous-errors", "tt-queries"]
BUDGET = dict(quick=90, thorough=750)
SO = {}


def prepare():
    SO["tsan"] = build.ext_path("tsan")


def jobs(tier, seed):
    n = 8 if tier == "quick" else 64
    per = 9 if tier == "quick" else 16
    base = seed * 1_000_003 + 18 * 20_011
    return [dict(seed=(base + i * 1000) % (1 << 31), n=per, timeout=300) for i in range(n)]


def sanlib(name):
    import subprocess
    return os.path.realpath(subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True).stdout.strip())


def inside(a):
    """in the sanitized process"""
    from checks import P15
    lib = ctypes.CDLL(env._state["cpp"].__file__)
    out = dict(scen=[], count={})
    c = out["count"]

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n
    lib.vmon_race_selftest()
    r0, b0 = lib.vmon_omp_multi_regions(), lib.vmon_omp_barriers()
    for k in range(a["n"]):
        seed = a["seed"] + k
        r = random.Random(seed)
        spec = scen.generate(seed, max_platoons=110, steps=r.choice([40, 70]), mix=[("grid", 3), ("cross", 2), ("random", 3), ("merge", 1), ("diverge", 1), ("ring", 1)], p_vehicles=0.8)
        kind = "error" if k % 4 == 3 else "run"
        if k % 3 == 1:
            spec["world"]["route_choice_update_gradual"] = True
            cnt("gradual")
        log = 0 if k % 4 == 1 else 1
        if not log:
            cnt("log-off")
        threads = r.choice([2, 3, 4, 8, 16])
        br = None
        with env.quiet():
            if kind == "error":
                for d in spec["demands"]:
                    d["t0"] = 0
                    d["t1"] = max(d["t1"], 20)
                try:
                    br = P15.breaks(spec, r)
                except Exception:
                    pass
            if k % 9 == 5:
                spec, br = P15.disjoint(r)
                cnt("simultaneous-errors")
            W = scen.build_world(spec, True, threads=threads, vehicle_logging_timestep_interval=log)
            for nm, route in br or ():
                W.VEHICLES[nm].enforce_route(route)
            err = None
            try:
                W.finalize_scenario()
                step = r.choice([1, 5, 1000])
                while W.check_simulation_ongoing():
                    W.exec_simulation(duration_t2=W.DELTAT * step)
                    if r.random() < 0.3:
                        for l in W.LINKS[:3]:
                            l.actual_travel_time(W.TIME), l.instant_travel_time(W.TIME), l.num_vehicles
                        cnt("tt-queries")
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
                cnt("errors-raised")
        cnt("scenarios")
        cnt("vehicles", len(W.VEHICLES))
        out["scen"].append([seed, kind, log, threads, len(W.LINKS), err])
        del W
    cnt("regions", lib.vmon_omp_multi_regions() - r0)
    cnt("barriers", lib.vmon_omp_barriers() - b0)
    return out


def parse(text):
    reports, cur = [], None
    for line in text.splitlines():
        if "WARNING: ThreadSanitizer" in line:
            cur = [line]
        elif cur is not None:
            cur.append(line)
            if line.startswith("SUMMARY: ThreadSanitizer"):
                reports.append("\n".join(cur))
                cur = None
    return reports


def frames(rep):
    fr = [m.group(1).split("(")[0] for m in re.finditer(r"#\d+ (\S.*?) (?:/|\S+:\d+|<null>)", rep)]
    return [f for f in fr if f not in ("malloc", "operator")]


def run(job):
    so = SO.get("tsan") or build.ext_path("tsan")
    d = tempfile.mkdtemp(prefix="vmon18-")
    try:
        e = dict(TSAN_OPTIONS=f"halt_on_error=0:exitcode=0:log_path={d}/log:history_size=4:report_signal_unsafe=0:report_thread_leaks=0:second_deadlock_stack=1",
                 VMON_OMP_MODE="par", VMON_OMP_SEED=str(job["seed"]), OPENBLAS_NUM_THREADS="1")
        res, rc, err = child.call("checks.P18", "inside", dict(seed=job["seed"], n=job["n"]), so=so, env=e, preload=sanlib("libtsan.so") + ":" + sanlib("libstdc++.so.6"), timeout=280)
        text = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(d + "/log*")))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    reps = parse(text)
    mine = [x for x in reps if "selftest_body" not in x]
    own = len(reps) - len(mine)
    races = [x for x in mine if "uxsim_cpp" in x or "traffi" in x or "bindings" in x]
    viol = []
    seen = set()
    for x in races:
        head = re.search(r"SUMMARY: ThreadSanitizer: (.*)", x).group(1)
        if head in seen:
            continue
        seen.add(head)
        viol.append(("data-race" if "data race" in head else "thread-error", f"{re.sub('/[^ ]*/', '', head)[:200]}"))
    if res is None and "ThreadSanitizer:DEADLYSIGNAL" in err + text:
        viol.append(("crash", "the engine process crashed under ThreadSanitizer"))
        return dict(viol=viol[:3], count={}, trace=(races[0] if races else err)[-1800:])
    if res is None:
        if rc == 0 or rc is None:
            raise RuntimeError("no result from the sanitized process: " + err[-500:])
        if rc == "timeout":
            return dict(viol=viol[:3], count={}, error="the sanitized process timed out", trace=None)
        if races or rc < 0:
            viol.append(("crash", f"the engine process died with {rc} under ThreadSanitizer"))
            return dict(viol=viol[:3], count={}, trace=(races[0] if races else err)[-1800:])
        raise RuntimeError(f"sanitized process failed ({rc}): {err[-800:]}")
    c = res["count"]
    c["selftest-race-seen"] = own
    c["reports-elsewhere"] = len(mine) - len(races)
    if not own:
        return dict(viol=viol[:3], count=c, error="the race detector did not see the deliberate race")
    out = dict(viol=viol[:3], count=c, sigs=[repr(s[:5]) for s in res["scen"]], evals=len(res["scen"]))
    if races:
        out["trace"] = races[0][:1800]
    out["sample"] = res["scen"][:3]
    return out
