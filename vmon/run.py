"""Runs the jobs of a check in a pool of forked workers, aggregates what the monitors observed, decides, writes the evidence.

Exit codes: 0 the property held on everything explored; 1 violation; 3 no answer (machinery failure, nothing observed).
"""
import hashlib, importlib, json, multiprocessing as mp, os, signal, subprocess, sys, time, traceback, gc, re
from collections import Counter, defaultdict
from multiprocessing import connection as mpc
from . import env, build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VMON_JOBS", "8"))


def load_check(pid):
    return importlib.import_module("checks." + pid)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) rule=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(rule=m.group(2), rx=re.compile(m.group(3)), what=m.group(4), line=line.strip()))
    return out


def _in_verif(tb):
    """True if the innermost frame outside the library under test is the only one: i.e. the machinery itself failed"""
    frames = traceback.extract_tb(tb)
    return not any("/uxsim/" in os.path.realpath(f.filename) and not f.filename.startswith(VERIF + os.sep) for f in frames)


def run_job(chk, job):
    """Runs one job in this process. Never raises."""
    t0 = time.time()
    try:
        r = chk.run(job)
        r.setdefault("viol", [])
        r.setdefault("count", {})
    except Exception as e:
        tb = traceback.format_exc()
        loc = traceback.extract_tb(e.__traceback__)[-1]
        if _in_verif(e.__traceback__) and not isinstance(e, getattr(chk, "CODE_ERRORS", ())):
            r = dict(viol=[], count={}, error=f"{type(e).__name__}: {e}\n{tb[-1500:]}")
        else:
            r = dict(viol=[("exception", f"{type(e).__name__}: {str(e)[:200]} ({os.path.basename(loc.filename)}:{loc.name})")], count={}, trace=tb[-1800:])
    r["wall"] = time.time() - t0
    return r


def _worker(conn, pid, ppid):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VMON_STDERR"):
        os.dup2(devnull, 2)
    chk = load_check(pid)
    loaded = None
    n = 0
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            os._exit(0)
        if msg is None:
            os._exit(0)
        job, so = msg
        if so and loaded != so:
            try:
                env.load_cpp(so=so)
                loaded = so
            except Exception as e:
                conn.send(dict(viol=[], count={}, error=f"loading the extension failed: {e}", wall=0))
                continue
        r = run_job(chk, job)
        n += 1
        if n % 20 == 0:
            gc.collect()
        try:
            conn.send(r)
        except Exception as e:
            conn.send(dict(viol=[], count={}, error=f"result not transferable: {e}", wall=0))


class Pool:
    def __init__(self, pid, n):
        self.pid, self.ctx = pid, mp.get_context("fork")
        self.ws = []
        for _ in range(n):
            self.ws.append(self._spawn())

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.pid, os.getpid()), daemon=True)
        p.start()
        b.close()
        return dict(p=p, c=a, job=None, t=0, variant=None)

    def kill(self, w):
        try:
            w["p"].kill()
        except Exception:
            pass
        w["p"].join(5)
        w["c"].close()

    def close(self):
        for w in self.ws:
            self.kill(w)


def execute(chk, pid, jobs, deadline, log=lambda *a: None):
    """-> list of (job, result)"""
    variants = sorted({j["so"] for j in jobs if j.get("so")})
    builds, sos, berr = {}, {}, {}
    for v in variants:
        builds[v] = subprocess.Popen([sys.executable, "-c", f"import sys; sys.path.insert(0, {VERIF!r}); from vmon import build; print('SO='+build.ext_path({v!r}))"],
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    env.uxsim()
    pre = getattr(chk, "prepare", None)
    if pre:
        pre()
    pool = Pool(pid, min(NPROC, max(1, len(jobs))))
    todo = list(enumerate(jobs))
    results = [None] * len(jobs)
    retried = set()
    skipped = 0
    try:
        while todo or any(w["job"] is not None for w in pool.ws):
            for v, p in list(builds.items()):
                if p.poll() is not None:
                    out, err = p.communicate()
                    m = re.search(r"SO=(\S+)", out)
                    if p.returncode == 0 and m:
                        sos[v] = m.group(1)
                    else:
                        berr[v] = err[-3000:]
                    del builds[v]
            now = time.time()
            if now > deadline and todo:
                skipped = len(todo)
                todo = []
            # hand out
            for w in list(pool.ws):
                if w["job"] is not None or not todo:
                    continue
                pickd = None
                for k, (i, j) in enumerate(todo):
                    v = j.get("so")
                    if v and v in berr:
                        results[i] = dict(viol=[], count={}, error="build of the extension failed: " + berr[v], wall=0)
                        todo.pop(k)
                        break
                    if v and v not in sos:
                        continue
                    if v and w["variant"] not in (None, v):
                        pool.kill(w)
                        nw = pool._spawn()
                        w.update(nw)
                    pickd = k
                    break
                if pickd is None:
                    continue
                i, j = todo.pop(pickd)
                v = j.get("so")
                if v:
                    w["variant"] = v
                w["job"], w["t"] = i, time.time()
                w["c"].send((j, sos.get(v) if v else None))
            ready = mpc.wait([w["c"] for w in pool.ws], timeout=0.2)
            for w in pool.ws:
                if w["c"] in ready:
                    i = w["job"]
                    try:
                        r = w["c"].recv()
                    except (EOFError, OSError):
                        w["p"].join(5)
                        code = w["p"].exitcode
                        if code == -9 and i not in retried:     # maybe out of memory: once more
                            retried.add(i)
                            todo.append((i, jobs[i]))
                        else:
                            results[i] = dict(viol=[("crash", f"the process died with exit code {code} while running the job")], count={}, wall=time.time() - w["t"])
                        w.update(pool._spawn())
                        continue
                    results[i] = r
                    w["job"] = None
                elif w["job"] is not None and time.time() - w["t"] > jobs[w["job"]].get("timeout", 150):
                    i = w["job"]
                    pool.kill(w)
                    w.update(pool._spawn())
                    if i not in retried:
                        retried.add(i)
                        todo.append((i, jobs[i]))
                    else:
                        results[i] = dict(viol=[("no-progress", f"the job did not finish within {jobs[i].get('timeout', 150)} s (twice)")], count={}, wall=0)
    finally:
        pool.close()
        for p in builds.values():
            p.kill()
    return [(j, r) for j, r in zip(jobs, results) if r is not None], skipped


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
    chk = load_check(pid)
    if "--replay" in argv:
        return replay(chk, pid, argv[argv.index("--replay") + 1])
    t0 = time.time()
    jobs = chk.jobs(tier, seed)
    budget = getattr(chk, "BUDGET", {}).get(tier, 200 if tier == "quick" else 780)
    res, skipped = execute(chk, pid, jobs, t0 + budget)
    count, errors, viols, sigs, evals = Counter(), [], [], set(), 0
    nontrivial = 0
    for j, r in res:
        evals += r.get("evals", 1)
        count.update(r["count"])
        if r.get("error"):
            errors.append((j, r["error"]))
        for rule, msg in r["viol"]:
            viols.append((rule, msg, j, r.get("trace")))
        for s in r.get("sigs", []):
            sigs.add(s)
        if r.get("sig"):
            sigs.add(r["sig"])
    extra = {}
    if hasattr(chk, "final"):
        extra = chk.final(res, count) or {}
        for rule, msg, j in extra.pop("viol", []):
            viols.append((rule, msg, j, None))
    # known findings
    kf = known_findings(pid)
    seen_kf, real = Counter(), []
    for v in viols:
        for k in kf:
            if k["rule"] == v[0] and k["rx"].search(v[1]):
                seen_kf[k["line"]] += 1
                break
        else:
            real.append(v)
    for k in kf:
        if seen_kf[k["line"]]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    samples = []
    for j, r in res:
        if r.get("sample") is not None:
            samples.append(r["sample"])
        if len(samples) >= 3:
            break
    if not samples:
        samples = [_short(j) for j, _ in res[:3]]
    required = getattr(chk, "REQUIRED", [])
    if callable(required):
        required = required(tier)
    missing = [r for r in required if count.get(r, 0) <= 0]
    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=chk.RULE, samples=samples,
               observed={k: (int(v) if float(v).is_integer() else round(float(v), 6)) for k, v in sorted(count.items())},
               jobs_run=len(res), jobs_skipped_at_deadline=skipped, required_observations_missing=missing,
               known_findings_seen=sum(seen_kf.values()))
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(chk, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(chk, "ASSUME", []), wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if real:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        by = defaultdict(list)
        for v in real:
            by[v[0]].append(v)
        n = 0
        for rule, vs in sorted(by.items()):
            vs.sort(key=lambda v: len(json.dumps(v[2], default=str)) if v[2] else 0)
            v = vs[0]
            path = os.path.join(VERIF, "replay", f"{pid}-{re.sub('[^A-Za-z0-9_]', '_', rule)[:40]}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, rule=rule, message=v[1], trace=v[3], job=v[2]), f, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [{rule}] x{len(vs)}: {v[1]}")
            if v[3]:
                print("  " + v[3].strip().splitlines()[-1])
            n += 1
        return 1
    if errors:
        print(f"NO ANSWER: {len(errors)} job(s) failed in the machinery, first: {errors[0][1]}")
        return 3
    if missing or not res:
        print(f"NO ANSWER: the monitors never observed {missing}")
        return 3
    print(f"OK property={pid} tier={tier} seed={seed}: {evals} executions, {len(sigs)} distinct, {sum(count.values()):.0f} observations, {time.time()-t0:.1f} s" + (f", {skipped} jobs skipped at the deadline" if skipped else ""))
    return 0


def _short(j):
    s = json.dumps(j, default=str)
    return j if len(s) < 3000 else s[:3000] + "..."


def replay(chk, pid, path):
    d = json.load(open(path))
    job = d["job"]
    env.uxsim()
    if job is None:
        print("this violation is statistical over many jobs; rerun the check")
        return 3
    if job.get("so"):
        env.load_cpp(so=build.ext_path(job["so"]))
    if hasattr(chk, "prepare"):
        chk.prepare()
    r = run_job(chk, job)
    for rule, msg in r["viol"]:
        print(f"VIOLATION property={pid} replay={path}\n  [{rule}] {msg}")
    if r.get("trace"):
        print(r["trace"])
    if r.get("error"):
        print(r["error"])
        return 3
    return 1 if r["viol"] else 0
