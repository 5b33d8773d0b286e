"""Runs a function of a check in a fresh process (sanitizer preloads, other hash seeds): python -m vmon.child, job on stdin."""
import importlib, json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def call(module, func, arg, so=None, env=None, timeout=240, preload=None):
    """-> (result or None, returncode, stderr)"""
    e = dict(os.environ)
    e.update(env or {})
    if preload:
        e["LD_PRELOAD"] = preload
    e["PYTHONPATH"] = HERE
    cmd = [sys.executable, "-m", "vmon.child"]
    try:
        p = subprocess.run(cmd, input=json.dumps(dict(module=module, func=func, arg=arg, so=so)), capture_output=True, text=True, env=e, timeout=timeout, cwd=HERE, errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, "timeout", (x.stderr or b"")[-4000:].decode(errors="replace") if isinstance(x.stderr, bytes) else str(x.stderr)[-4000:]
    res = None
    for l in p.stdout.splitlines():
        if l.startswith("VMONRESULT"):
            res = json.loads(l[10:])
    return res, p.returncode, p.stderr


def main():
    import warnings
    warnings.simplefilter("ignore")
    a = json.loads(sys.stdin.read())
    from vmon import env
    env.uxsim()
    if a["so"]:
        env.load_cpp(so=a["so"])
    m = importlib.import_module(a["module"])
    r = getattr(m, a["func"])(a["arg"])
    sys.stdout.write("\nVMONRESULT" + json.dumps(r, default=str) + "\n")
    sys.stdout.flush()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
    if not os.environ.get("VMON_FULL_EXIT"):
        os._exit(0)
