"""Compiles the C++ extension from /repo's current tree, out of tree.

variants: plain | asan (ASan+UBSan) | tsan (TSan + own OpenMP shim) | shim (own OpenMP shim, adversarial schedules)
Results are cached by content under /verif/buildcache (ignored by git, optional).
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VMON_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), "buildcache")

VARIANTS = {
    "plain": dict(cflags=["-O1", "-fopenmp"], ld=["-fopenmp"], shim=False),
    "asan":  dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                          "-fsanitize=float-divide-by-zero", "-fsanitize=float-cast-overflow", "-D_GLIBCXX_ASSERTIONS", "-fopenmp"],
                  ld=["-fsanitize=address,undefined", "-fopenmp"], shim=False),
    "tsan":  dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fopenmp"],
                  ld=["-fsanitize=thread", "-lgomp"], shim=True),
    "shim":  dict(cflags=["-O1", "-fopenmp"], ld=["-lpthread", "-lgomp"], shim=True),
}
# float-divide-by-zero is not undefined behaviour under IEEE arithmetic: left out below
VARIANTS["asan"]["cflags"].remove("-fsanitize=float-divide-by-zero")


class BuildError(Exception):
    pass


def _source_files():
    d = os.path.join(REPO, "uxsim", "trafficpp")
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith((".cpp", ".h", ".hpp", ".cc", ".inl")):
            out.append(os.path.join(d, f))
    return out


def _key(variant):
    h = hashlib.sha256()
    for f in _source_files():
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update(repr(VARIANTS[variant]).encode())
    if VARIANTS[variant]["shim"]:
        h.update(open(os.path.join(HERE, "gompshim.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]


def ext_path(variant="plain"):
    """Builds (or finds) the extension; returns the path of the .so file."""
    os.makedirs(CACHE, exist_ok=True)
    key = _key(variant)
    dst_dir = os.path.join(CACHE, f"{variant}-{key}")
    so = os.path.join(dst_dir, "uxsim_cpp" + sysconfig.get_config_var("EXT_SUFFIX"))
    lock = open(os.path.join(CACHE, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(so):
            return so
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE) if d.startswith(variant + "-"))
        for _, d in old[:-4]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tmp = dst_dir + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        _compile(variant, tmp, os.path.join(tmp, os.path.basename(so)))
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        os.rename(tmp, dst_dir)
        return so
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _compile(variant, tmp, so):
    import nanobind
    v = VARIANTS[variant]
    nb = os.path.dirname(nanobind.__file__)
    inc = ["-I" + os.path.join(nb, "include"), "-I" + os.path.join(nb, "ext", "robin_map", "include"),
           "-I" + sysconfig.get_paths()["include"], "-I" + os.path.join(REPO, "uxsim", "trafficpp")]
    base = ["g++", "-std=c++17", "-fPIC", "-fvisibility=hidden"] + inc
    jobs = [
        (base + v["cflags"] + ["-c", os.path.join(REPO, "uxsim", "trafficpp", "bindings.cpp"), "-o", os.path.join(tmp, "b.o")]),
        (base + ["-O1", "-fno-strict-aliasing", "-DNDEBUG", "-DNB_COMPACT_ASSERTIONS", "-c", os.path.join(nb, "src", "nb_combined.cpp"), "-o", os.path.join(tmp, "nb.o")]),
    ]
    objs = ["b.o", "nb.o"]
    if v["shim"]:
        san = [f for f in v["cflags"] if f.startswith("-fsanitize")]
        jobs.append(["g++", "-std=c++17", "-fPIC", "-O1", "-g"] + san + ["-c", os.path.join(HERE, "gompshim.cpp"), "-o", os.path.join(tmp, "s.o")])
        objs.append("s.o")

    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(run, jobs))
    run(["g++", "-shared", "-o", so] + [os.path.join(tmp, o) for o in objs] + v["ld"])


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["plain"]:
        print(v, ext_path(v), round(time.time() - t, 1))
