"""Process set-up: import uxsim from /repo with the freshly built C++ extension; work around the missing font."""
import importlib.util, io, os, sys, warnings, contextlib
from . import build

REPO = build.REPO
_state = {"uxsim": None, "cpp": None}


def _drop_editable_finders():
    sys.meta_path[:] = [f for f in sys.meta_path if "ScikitBuildRedirectingFinder" not in type(f).__name__]


def uxsim():
    """The uxsim package of /repo (Python engine; no extension needed)."""
    if _state["uxsim"] is None:
        warnings.simplefilter("ignore")
        sys.dont_write_bytecode = True
        os.environ.setdefault("MPLBACKEND", "Agg")
        os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
        _drop_editable_finders()
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import uxsim as u
        import uxsim.analyzer as an
        assert os.path.realpath(u.__file__).startswith(os.path.realpath(REPO)), u.__file__
        # the distributed tree lacks one font file; any font will do for the analyzer
        font = os.path.join(REPO, "uxsim", "files", "HackGen-Regular.ttf")
        if not os.path.exists(font):
            data = open(os.path.join(REPO, "uxsim", "files", "Inconsolata.otf"), "rb").read()
            an.load_font_data = lambda *a, **k: data
        warnings.simplefilter("ignore")
        _state["uxsim"] = u
    return _state["uxsim"]


def load_cpp(variant="plain", so=None):
    """Loads the extension built from /repo and installs it as uxsim.uxsim_cpp. One variant per process."""
    if _state["cpp"] is not None:
        return _state["cpp"]
    u = uxsim()
    so = so or build.ext_path(variant)
    spec = importlib.util.spec_from_file_location("uxsim.uxsim_cpp", so)
    m = importlib.util.module_from_spec(spec)
    sys.modules["uxsim.uxsim_cpp"] = m
    spec.loader.exec_module(m)
    u.uxsim_cpp = m
    import uxsim.uxsim_cpp_wrapper as w
    assert w.trafficppy is m
    _state["cpp"] = m
    warnings.simplefilter("ignore")
    return m


@contextlib.contextmanager
def quiet():
    """Silences prints of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def make_world(cpp=False, **kw):
    u = uxsim()
    if cpp:
        load_cpp()
        return u.World(cpp=True, **kw)
    return u.World(**kw)
