"""P17 memory safety of the C++ engine under any API use: ASan + UBSan over ordinary scenarios and hostile call sequences."""
import gc, glob, os, random, re, shutil, tempfile
from vmon import scen, env, build, child, fuzz

TECHNIQUE = "AddressSanitizer + UndefinedBehaviorSanitizer (+ libstdc++ assertions) build of the engine under hostile random API call sequences and ordinary scenarios; a deliberate out-of-bounds read proves the detector is live"
LEVEL_NOTE = "Exploration: call sequences are sampled. Memory errors inside numpy or nanobind themselves are outside. Process memory exhaustion by absurdly large requests is not provoked."
RULE = ("Sequences of up to 150 public API calls on C++ worlds (construction, wrong names and types, zero/negative/NaN/huge values, objects of other worlds, early, repeated and partial execution, reads at any time, writes of settings, "
        "routes and destinations, deletion of worlds while pieces are kept) and full scenarios, in a process with ASan/UBSan. Non-trivial: an exec call ran in the sequence; distinct by seed.")
REQUIRED = ["sequences", "operations", "exec-calls", "scenarios", "worlds-dropped", "detector-live", "raised", "views-compared"]
BUDGET = dict(quick=110, thorough=760)
SO = {}
CODE_ERRORS = ()


def prepare():
    SO["asan"] = build.ext_path("asan")


def jobs(tier, seed):
    base = seed * 1_000_003 + 17 * 20_011
    n = 22 if tier == "quick" else 240
    out = [dict(seed=(base + i * 1000) % (1 << 31), kind="fuzz", n=14, hostile=[0.03, 0.15, 0.08, 0.3][i % 4], timeout=260) for i in range(n)]
    out += [dict(seed=(base + 500_000 + i * 1000) % (1 << 31), kind="scen", n=10, timeout=260) for i in range(n // 4)]
    out.insert(0, dict(seed=base, kind="selftest", timeout=120))
    return out


def inside(a):
    out = dict(count={})
    c = out["count"]

    def cnt(k, n=1):
        c[k] = c.get(k, 0) + n
    j = open(a["journal"], "w")
    if a["kind"] == "selftest":
        import ctypes
        lib = ctypes.CDLL("libasan.so.8")
        buf = ctypes.create_string_buffer(1)
        cnt("loaded")
        # the interceptors must be active: reading a freed block through an intercepted function is an error
        libc = ctypes.CDLL(None)
        libc.malloc.restype = ctypes.c_void_p
        libc.malloc.argtypes = [ctypes.c_size_t]
        libc.free.argtypes = [ctypes.c_void_p]
        libc.memcmp.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t]
        p = libc.malloc(32)
        libc.free(p)
        libc.memcmp(p, p, 32)
        return out
    for k in range(a["n"]):
        seed = a["seed"] + k
        j.seek(0)
        j.truncate()
        j.write(f"# seed {seed}\n")
        with env.quiet():
            if a["kind"] == "scen":
                r = random.Random(seed)
                spec = scen.generate(seed, max_platoons=110, odd_dt=0.3, frac_tmax=True, mix=None if r.random() < .5 else [("grid", 2), ("random", 3), ("trap", 2), ("ring", 1)])
                W = scen.build_world(spec, True, threads=r.choice([1, 1, 2, 4]), vehicle_logging_timestep_interval=r.choice([1, 1, 0]))
                j.write("scenario\n")
                j.flush()
                views = []

                def take(when):
                    # arrays handed out now: they belong to the caller
                    for l in r.sample(W.LINKS, min(4, len(W.LINKS))):
                        views.extend((f"{x} of link {l.name} read {when}", getattr(l, x)) for x in ("cum_arrival", "cum_departure", "traveltime_actual", "traveltime_instant"))
                    for x in ("dist", "next"):
                        views.append((f"ROUTECHOICE.{x} read {when}", getattr(W.ROUTECHOICE, x)))
                    z = getattr(W.ROUTECHOICE, "dist_record", None) or {}
                    views.extend((f"ROUTECHOICE.dist_record[{k}] read {when}", v) for k, v in list(z.items())[-1:])
                if r.random() < 0.3:
                    W.exec_simulation()
                    take("at the end")
                else:
                    W.finalize_scenario()
                    while W.check_simulation_ongoing():
                        W.exec_simulation(duration_t2=W.DELTAT * r.choice([1, 4, 20]))
                        if r.random() < 0.1:
                            take(f"after step {W.T}")
                            views[:] = [(w, v, v.tobytes()) if len(x) == 2 else x for x in views for w, v in [x[:2]] if hasattr(v, "tobytes")]
                views[:] = [(w, v, v.tobytes()) if len(x) == 2 else x for x in views for w, v in [x[:2]] if hasattr(v, "tobytes")]
                from vmon import digest
                digest.capture(W, tables=True)
                cnt("scenarios")
                lost = [w for w, v, b in views if v.tobytes() != b]
                for l in W.LINKS:
                    l.traveltime_actual
                del W, l
                gc.collect()
                lost += [w for w, v, b in views if v.tobytes() != b]
                cnt("views-compared", len(views))
                if lost:
                    out.setdefault("viol", []).append(("view-changed", f"the array {lost[0]} changed when the world ran on or was deleted (seed {seed})"))
            else:
                f = fuzz.Fuzz(seed, j, hostile=a["hostile"], max_ops=a.get("max_ops", 110))
                f.run()
                cnt("sequences")
                cnt("operations", f.n)
                cnt("worlds-dropped")
                cnt("raised", sum(f.raised.values()))
                f.thaw()
                cnt("views-compared", f.compared)
                out.setdefault("viol", []).extend(("view-changed", x + f" (seed {seed})") for x in f.changed[:1])
                e = f.count.get("CppWorld.exec_simulation", 0)
                cnt("exec-calls", e)
                if e:
                    out.setdefault("sigs", []).append(str(seed))
                for t, x in f.raised.items():
                    cnt("raised-" + t, x)
    return out


SKIP = re.compile(r"nanobind|/numpy/|Objects/|Python/")


def parse(text):
    """-> [(kind, headline)] of reports in the engine"""
    out = []
    for m in re.finditer(r"^(\S*?/?)([\w.]+\.(?:cpp|h)):(\d+):(\d+): runtime error: (.*)$", text, re.M):
        out.append(("undefined-behaviour", f"{m.group(2)}: {re.sub('0x[0-9a-f]+', '0x..', m.group(5))[:160]}"))
    if "hard rss limit exhausted" in text:
        return out + [("memory-exhausted", "")]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m and m.group(1) in ("out", "allocator", "allocation-size-too-big", "calloc-overflow", "requested"):
        return out + [("memory-exhausted", "")]
    if m:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/\S*/)?([\w.]+\.(?:cpp|h)):\d+", text)
        first = next((f"{a[:80]} ({b})" for a, b in fr if b in ("traffi.cpp", "traffi.h", "bindings.cpp")), "")
        out.append(("memory-error", f"{m.group(1)} in {first or (fr[0][0][:80] if fr else '?')}"))
    m = re.search(r"(Assertion '.*' failed|terminate called.*|stl_\w+\.h:\d+.*Assertion.*)", text)
    if m and not out:
        out.append(("assertion", m.group(1)[:200]))
    return out


def run(job):
    so = SO.get("asan") or build.ext_path("asan")
    d = tempfile.mkdtemp(prefix="vmon17-")
    from checks.P18 import sanlib
    try:
        e = dict(ASAN_OPTIONS=f"detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:log_path={d}/log:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=1500:hard_rss_limit_mb=3500:handle_segv=1",
                 UBSAN_OPTIONS=f"print_stacktrace=0:halt_on_error=0:log_path={d}/ub", PYTHONMALLOC="malloc", OMP_NUM_THREADS="4", VMON_FULL_EXIT="" )
        e.pop("VMON_FULL_EXIT")
        res, rc, err = child.call("checks.P17", "inside", dict(seed=job["seed"], n=job.get("n", 1), kind=job["kind"], hostile=job.get("hostile"), journal=d + "/journal", max_ops=job.get("max_ops", 110)),
                                  so=so if job["kind"] != "selftest" else None, env=e, preload=sanlib("libasan.so") + ":" + sanlib("libstdc++.so.6"), timeout=job.get("child_timeout", 110))
        text = err + "".join(open(f, errors="replace").read() for f in sorted(glob.glob(d + "/log*") + glob.glob(d + "/ub*")))
        journal = open(d + "/journal", errors="replace").read() if os.path.exists(d + "/journal") else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if job["kind"] == "selftest":
        if "heap-use-after-free" in text:
            return dict(viol=[], count={"detector-live": 1})
        return dict(viol=[], count={}, error=f"the sanitizer did not report the deliberate error ({rc}): {text[-600:]}")
    viol, seen = [], set()
    reports = parse(text)
    if any(k == "memory-exhausted" for k, _ in reports):
        # the sanitizer's allocator ends the process where the real one raises MemoryError
        reports = [x for x in reports if x[0] != "memory-exhausted"]
        if not reports:
            return dict(viol=[], count={"cut-short": 1})
    for k, h in reports:
        if (k, h) not in seen:
            seen.add((k, h))
            viol.append((k, h))
    tail = "\n".join(journal.splitlines()[:1] + journal.splitlines()[-12:])
    trace = None
    if res is None:
        last = (journal.splitlines() or ["?"])[-1]
        sd = (journal.splitlines() or ["?"])[0]
        if rc == "timeout":
            if viol:
                return dict(viol=viol[:3], count={}, trace=tail)
            if re.search(r"^\d+ (World|CppWorld\.add(Node|Link|Vehicle)|set |CppNode\.|CppLink\.change)", last) is None:
                # a long simulation or analysis under the sanitizer is not a defect
                return dict(viol=[], count={"cut-short": 1})
            return dict(viol=[("hang", f"no progress for {job.get('child_timeout', 110)} s in: {last} ({sd})")], count={}, trace=tail)
        if not viol:
            if rc == -9:
                return dict(viol=[], count={"cut-short": 1})        # ended from outside for lack of memory
            if isinstance(rc, int) and (rc < 0 or rc in (66, 134, 139)):
                viol.append(("crash", f"the process died ({rc}) in: {last} ({sd})"))
            else:
                raise RuntimeError(f"child failed ({rc}): {err[-1200:]}")
        else:
            viol[0] = (viol[0][0], viol[0][1] + f" [during: {last[:120]}; {sd}]")
        trace = (tail + "\n" + text)[-1800:] if len(tail) < 900 else tail
        return dict(viol=viol[:3], count={}, trace=tail + "\n" + text[:1200])
    viol += [tuple(x) for x in res.get("viol", [])]
    out = dict(viol=viol[:4], count=res["count"], sigs=res.get("sigs", []), evals=job["n"])
    if viol:
        out["trace"] = text[:1500] or tail
    return out
