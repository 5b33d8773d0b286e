"""Development helper (no check uses it): make a planted bug from a spec and confirm it in a scratch copy.

usage: plant.py SPECDIR/<id>.py   where the spec defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = [s.split(".", 1)[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
SCR = "/tmp/plant_scratch"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", PYTHONHASHSEED="0")
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def main(spec):
    sid = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    d = os.path.join(SCR, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"git -C /repo archive HEAD | tar -x -C {d}")
    sh("git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", cwd=d)
    for f, old, new in s["EDITS"]:
        p = os.path.join(d, f)
        t = open(p, encoding="utf-8").read()
        assert t.count(old) == 1, (sid, f, t.count(old), old)
        open(p, "w", encoding="utf-8").write(t.replace(old, new))
    rc, diff = sh("git diff", cwd=d)
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONHASHSEED=${PYTHONHASHSEED:-0}\n'
                                                  'HERE=$(cd "$(dirname "$0")" && pwd)\nexec /opt/venv/bin/python "$HERE/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    rc, o = sh("git apply --check " + os.path.join(out, "patch.diff"), cwd="/repo")
    assert rc == 0, o
    # clean tree (installed build)
    rc0, o0 = sh(os.path.join(out, "demo.sh"), cwd="/repo", timeout=300)
    # patched tree
    sc = os.path.join(d, "_site"); os.makedirs(sc)
    open(os.path.join(sc, "sitecustomize.py"), "w").write(
        'import sys\nsys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuildRedirectingFinder" not in type(f).__name__]\n')
    if True:
        rc, so = sh(f"{PY} -c \"import sys; sys.path.insert(0,'{V}'); from vmon import build; print(build.ext_path('plain'))\"", env={"VMON_REPO": d})
        assert rc == 0, so[-3000:]
        shutil.copy(so.strip().splitlines()[-1], os.path.join(d, "uxsim/"))
    env = {"PYTHONPATH": f"{sc}:{d}", "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
    rc1, o1 = sh(os.path.join(out, "demo.sh"), cwd=d, env=env, timeout=300)
    ids = " ".join("tests/" + x.replace("::", ".py::") for x in STABLE)
    rct, ot = sh(f"{PY} -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 {ids}", cwd=d, env=env)
    ok = rc0 == 0 and rc1 not in (0,) and rct == 0
    print(sid, s["PROP"], "OK" if ok else "BAD", "clean", rc0, "patched", rc1, "tests", rct)
    if not ok or "-v" in sys.argv:
        print("  clean:", o0[-600:], "\n  patched:", o1[-800:], "\n  tests:", ot[-600:])
    else:
        print("   ", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    shutil.rmtree(d, ignore_errors=True)
    return ok


if __name__ == "__main__":
    for a in [x for x in sys.argv[1:] if x.endswith(".py")]:
        try:
            main(a)
        except Exception as e:
            print(a, "ERROR", repr(e)[:1500])
