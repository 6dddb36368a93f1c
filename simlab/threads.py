"""The thread seam: executors, threads and events used by the code under test become simulated threads.

Inside a simulation ``concurrent.futures.ThreadPoolExecutor``, ``wait`` and ``as_completed`` and, for
caput's own modules, ``threading.Thread/Event/Lock/RLock/Timer`` are driven by the seeded scheduler.
Optionally every source line a worker executes in a caput file is a scheduling point.
Outside a simulation the real classes are used.
"""

import concurrent.futures as cf
import sys
import threading
import types

from . import sched

R = {}


def _tracer(sim, prefix):
    def local(frame, event, arg):
        if event == "line":
            sim.step()
        return local

    def glob(frame, event, arg):
        fn = frame.f_code.co_filename
        if event == "call" and prefix in fn:
            return local
        return None

    return glob


class SimFuture:
    def __init__(self, sim):
        self._sim = sim
        self._state = "pending"
        self._result = None
        self._exc = None
        self._cbs = []

    def done(self):
        return self._state in ("done", "cancelled")

    def running(self):
        return self._state == "running"

    def cancelled(self):
        return self._state == "cancelled"

    def cancel(self):
        if self._state == "pending":
            self._finish("cancelled", None, cf.CancelledError())
            return True
        return self._state == "cancelled"

    def _finish(self, state, result, exc):
        self._state, self._result, self._exc = state, result, exc
        for cb in self._cbs:
            cb(self)

    def _await(self, timeout):
        if not self.done() and not self._sim.block(self.done, "future", timeout=timeout):
            raise cf.TimeoutError()

    def result(self, timeout=None):
        self._await(timeout)
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self, timeout=None):
        self._await(timeout)
        if self._state == "cancelled":
            raise self._exc
        return self._exc

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self._cbs.append(fn)


class SimExecutor:
    """A thread pool whose workers the scheduler runs."""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max = max_workers or 8
        self._args = (max_workers, thread_name_prefix, initializer, initargs)
        self._real = None
        self._queue = []
        self._running = 0
        self._shut = False

    _max_workers = property(lambda s: s._max)

    def submit(self, fn, /, *args, **kwargs):
        sim = sched.active()
        if sim is None:
            if self._real is None:
                self._real = R["ThreadPoolExecutor"](*self._args)
            return self._real.submit(fn, *args, **kwargs)
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        cfg = getattr(sim, "threads_cfg", None) or {}
        if cfg.get("start_p") and sim.chance(cfg["start_p"]):
            sim.fault("thread_start_failure")
            raise RuntimeError("can't start new thread")
        f = SimFuture(sim)
        self._queue.append(f)
        me = sched.current()

        def ready():
            return self._running < self._max and self._queue and self._queue[0] is f or f.done()

        def work():
            if not ready():
                sim.block(ready, "pool slot")
            if f.done():
                return
            self._queue.pop(0)
            self._running += 1
            f._state = "running"
            old = None
            if cfg.get("trace"):
                old = sys.gettrace()
                sys.settrace(_tracer(sim, cfg["trace"]))
            try:
                if cfg.get("fail_p") and sim.chance(cfg["fail_p"]):
                    sim.fault("worker_failure")
                    raise MemoryError("injected")
                out = fn(*args, **kwargs)
            except (sched.SimAbort, sched.HarnessError, sched.Violation):
                raise
            except BaseException as e:  # noqa: BLE001
                f._finish("done", None, e)
            else:
                f._finish("done", out, None)
            finally:
                if cfg.get("trace"):
                    sys.settrace(old)
                self._running -= 1

        sim.probe("worker_task")
        sim.spawn(work, rank=me.rank, name=f"worker{len(sim.threads)}")
        sim.step()
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result(timeout)

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        if self._real is not None:
            self._real.shutdown(wait=False)
        sim = sched.active()
        if cancel_futures:
            for f in list(self._queue):
                f.cancel()
            self._queue = []
        if sim is not None and wait and sim.aborting is None:
            sim.block(lambda: not self._queue and not self._running, "pool shutdown")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)
        return False


def _wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if not fs or not isinstance(fs[0], SimFuture):
        return R["wait"](fs, timeout, return_when)
    sim = fs[0]._sim
    if return_when == "FIRST_COMPLETED":
        def pred():
            return any(f.done() for f in fs)
    elif return_when == "FIRST_EXCEPTION":
        def pred():
            return all(f.done() for f in fs) or any(f.done() and f._exc is not None for f in fs)
    else:
        def pred():
            return all(f.done() for f in fs)
    sim.step()
    if not pred():
        sim.block(pred, "futures", timeout=timeout)
    done = {f for f in fs if f.done()}
    return cf._base.DoneAndNotDoneFutures(done, set(fs) - done)


def _as_completed(fs, timeout=None):
    fs = list(fs)
    if not fs or not isinstance(fs[0], SimFuture):
        yield from R["as_completed"](fs, timeout)
        return
    sim = fs[0]._sim
    left = fs
    while left:
        if not any(f.done() for f in left):
            sim.block(lambda: any(f.done() for f in left), "futures", timeout=timeout)
        d = [f for f in left if f.done()]
        left = [f for f in left if not f.done()]
        yield from d


# -- threading, for caput's modules ------------------------------------------------
class SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        sim = sched.active()
        if sim is not None and sim.aborting is None:
            sim.step()

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            return True
        return sched.active().block(lambda: self._flag, "event", timeout=timeout)


class SimThreadObj:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "thread"
        self.daemon = bool(daemon)
        self._st = None
        self.exc = None
        self.ident = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = sched.active()
        if self._st is not None:
            raise RuntimeError("threads can only be started once")
        cfg = getattr(sim, "threads_cfg", None) or {}
        if cfg.get("start_p") and sim.chance(cfg["start_p"]):
            sim.fault("thread_start_failure")
            raise RuntimeError("can't start new thread")

        def main():
            old = None
            if cfg.get("trace"):
                old = sys.gettrace()
                sys.settrace(_tracer(sim, cfg["trace"]))
            try:
                self.run()
            except (sched.SimAbort, sched.HarnessError, sched.Violation):
                raise
            except BaseException as e:  # noqa: BLE001
                # an exception in a thread goes to threading.excepthook, not to the program
                self.exc = e
                sim.log("thread-exception", type(e).__name__)
                getattr(sim, "thread_errors", []).append(e)
            finally:
                if cfg.get("trace"):
                    sys.settrace(old)

        self._st = sim.spawn(main, rank=sched.current().rank, name=self.name)
        self.ident = 1000 + self._st.tid
        sim.step()

    def join(self, timeout=None):
        if self._st is None:
            raise RuntimeError("cannot join thread before it is started")
        sim = sched.active()
        if self._st.state != "done":
            sim.block(lambda: self._st.state == "done", "join", timeout=timeout)

    def is_alive(self):
        return self._st is not None and self._st.state != "done"


class SimMutex:
    def __init__(self, re=False):
        self._owner = None
        self._n = 0
        self._re = re

    def acquire(self, blocking=True, timeout=-1):
        sim = sched.active()
        me = sched.current().tid
        sim.step()
        if self._re and self._owner == me:
            self._n += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if not sim.block(lambda: self._owner is None, "mutex", timeout=None if timeout < 0 else timeout) and timeout >= 0:
                return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _pick(sim_cls, real):
    def make(*a, **k):
        return sim_cls(*a, **k) if sched.active() is not None else real(*a, **k)

    return make


class ThreadingProxy(types.ModuleType):
    """``threading`` as caput's modules see it."""

    def __init__(self):
        super().__init__("threading")

    def __getattr__(self, name):
        if sched.active() is not None:
            if name == "Event":
                return SimEvent
            if name == "Thread":
                return SimThreadObj
            if name == "Lock":
                return SimMutex
            if name == "RLock":
                return lambda: SimMutex(True)
        return getattr(threading, name)


PROXY = ThreadingProxy()


def adopt(module):
    """Point a caput module's references to the threading primitives at the seam."""
    d = module.__dict__
    for k, v in list(d.items()):
        if v is threading:
            d[k] = PROXY
        elif v is threading.Thread:
            d[k] = SimThreadObj
        elif v is threading.Event:
            d[k] = _pick(SimEvent, threading.Event)
        elif v is threading.Lock:
            d[k] = _pick(SimMutex, threading.Lock)
        elif v is threading.RLock:
            d[k] = _pick(lambda: SimMutex(True), threading.RLock)


def install():
    R.update(ThreadPoolExecutor=cf.ThreadPoolExecutor, wait=cf.wait, as_completed=cf.as_completed)
    cf.ThreadPoolExecutor = SimExecutor
    cf.thread.ThreadPoolExecutor = SimExecutor
    cf.wait = cf._base.wait = _wait
    cf.as_completed = cf._base.as_completed = _as_completed
    import numpy as np

    bg = np.random.bit_generator
    R["randbits"] = bg.randbits

    def randbits(n):
        sim = sched.active()
        if sim is None:
            return R["randbits"](n)
        import hashlib

        c = getattr(sim, "entropy", None)
        if c is None:
            c = sim.entropy = {}
        r = sched.current().rank
        c[r] = c.get(r, 0) + 1
        h = hashlib.blake2b(f"{sim.hash_salt}/{r}/{c[r]}".encode(), digest_size=max(1, (n + 7) // 8)).digest()
        return int.from_bytes(h, "big") & ((1 << n) - 1)

    bg.randbits = randbits
