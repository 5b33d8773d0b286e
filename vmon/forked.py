"""Runs a function in a forked copy of the worker (libraries with one global state per process, crashes): result or signal."""
import ctypes, json, os, select, signal, sys, time, traceback


def call(f, arg, timeout=200):
    """-> (result or None, how it ended: 'ok', 'signal n', 'exit n', 'timeout')"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            try:
                out = dict(r=f(arg))
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                out = dict(exc=f"{type(e).__name__}: {str(e)[:200]}", frames=[(x.filename, x.name, x.lineno) for x in tb], tb=traceback.format_exc()[-1800:])
            b = json.dumps(out, default=str).encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    how = None
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            how = "timeout"
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if how is None:
        how = f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else "ok" if buf else f"exit {os.WEXITSTATUS(st)}"
    return (json.loads(buf) if buf and how == "ok" else None), how
