"""Run a function of the harness over items in parallel processes."""
import multiprocessing as mp
import os
import traceback
from concurrent.futures import ProcessPoolExecutor

JOBS = int(os.environ.get("VF_JOBS", "7"))


class Raised:
    """An exception that came out of the code under test (or of what it returned)."""

    def __init__(self, item, text):
        self.item, self.text = item, text


def _call(a):
    fn, item = a
    try:
        return fn(item)
    except (MemoryError, OSError):
        raise
    except Exception as e:
        return Raised(item, "%s: %s\n%s" % (type(e).__name__, str(e)[:400], traceback.format_exc()[-3000:]))


_ex = None
DROP = False   # workers become an unprivileged user once everything is imported
NOBODY = 65534


def _init(drop=False):
    """A worker never outlives its parent."""
    import ctypes
    import signal
    ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)
    if drop:
        os.environ["HOME"] = "/nonexistent"
        import jax
        jax.jit(lambda x: x + 1)(1.0)
        from . import laws, maps, runs, sdfs, sim, steps  # noqa: F401
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        ctypes.CDLL("libc.so.6").prctl(1, signal.SIGKILL)  # cleared by the change of user


def _start():
    global _ex
    if _ex is None:
        os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
        os.environ.setdefault("OMP_NUM_THREADS", "1")
        _ex = ProcessPoolExecutor(max_workers=JOBS, mp_context=mp.get_context("spawn"), initializer=_init, initargs=(DROP,))
    return _ex


def _touch(_):
    import time

    from . import sim  # noqa: F401  (import jax and the package)
    time.sleep(0.3)


def warm():
    """Start the workers now, so that they import the package in the background."""
    ex = _start()
    for i in range(JOBS):
        ex.submit(_call, (_touch, i))


def pmap(fn, items):
    """[fn(item)], a Raised in place of a result where fn raised."""
    items = list(items)
    if not items:
        return []
    return list(_start().map(_call, [(fn, i) for i in items]))


def close():
    global _ex
    if _ex is not None:
        procs = list((_ex._processes or {}).values())
        _ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
        _ex = None
