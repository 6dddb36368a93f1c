"""Deterministic scheduler: simulated ranks/threads run one at a time under a seeded source of choices.

Real Python threads are used as coroutines: exactly one is ever released.  Every switch,
delay and fault is decided by ``Sim.pick`` which draws from a PRNG (search) or from a
recorded list (replay); the list of draws is the schedule-and-fault trace of the run.
A draw of 0 always means "the quiet default" (keep running, no fault, no delay), which is
what the minimiser drives every draw towards.
"""

import hashlib
import random
import threading
import traceback

STEP = 1e-6  # virtual seconds added per scheduling step


class SimAbort(BaseException):
    """Unwinds a simulated thread when the run is torn down."""


class SimCrash(SimAbort):
    """Unwinds a simulated thread because its process was killed."""


class HarnessError(Exception):
    """The harness (not the code under test) went wrong."""


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Choices:
    """All nondeterminism of one run."""

    def __init__(self, seed=None, replay=None):
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.log = []
        self.pos = 0

    def pick(self, n, p0=None):
        """Pick in [0, n); *p0* is the probability of the default 0 (None: uniform)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = v % n
        elif p0 is not None:
            v = 0 if self.rng.random() < p0 else self.rng.randrange(1, n)
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


class SimThread:
    __slots__ = (
        "tid", "rank", "name", "fn", "lock", "state", "pred", "desc", "wake",
        "result", "exc", "tb", "thread", "stall_until", "local",
    )

    def __init__(self, tid, rank, name, fn):
        self.tid = tid
        self.rank = rank
        self.name = name
        self.fn = fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.state = "ready"
        self.pred = None
        self.desc = ""
        self.wake = None
        self.result = None
        self.exc = None
        self.tb = None
        self.thread = None
        self.stall_until = 0.0
        self.local = {}


_CURRENT = threading.local()
ACTIVE = None  # the Sim being run in this process, if any


def current():
    """The simulated thread we are on (None outside a simulation)."""
    return getattr(_CURRENT, "st", None)


def active():
    st = current()
    return ACTIVE if st is not None else None


class Sim:
    """One simulated run."""

    def __init__(self, choices, max_steps=200000, preempt=0.3, stall_p=0.0,
                 max_stalls=0, tick_p=0.02):
        self.choices = choices
        self.max_steps = max_steps
        self.preempt = preempt
        self.stall_p = stall_p
        self.stalls_left = max_stalls
        self.tick_p = tick_p
        self.threads = []
        self.now = 0.0
        self.steps = 0
        self.switches = 0
        self.aborting = None
        self.outcome = None  # None while running; 'done'|'deadlock'|'budget'|'abort'
        self.detail = ""
        self.faults = {}
        self.probes = {}
        self.event_sources = []  # callables returning next event time or None
        self.pollers = []  # callables run before computing runnability
        self.on_switch = []  # callables(thread)
        self._sched_hash = hashlib.blake2b(digest_size=8)
        self._log_hash = hashlib.blake2b(digest_size=16)
        self.events = []
        self.keep_events = True
        self.done_lock = threading.Lock()
        self.done_lock.acquire()
        self.current_tid = None
        self.harness_error = None

    # -- choices, logging -------------------------------------------------
    def pick(self, n, p0=None):
        return self.choices.pick(n, p0)

    def chance(self, p):
        """True with probability p (replayed from the trace); quiet default False."""
        if p <= 0:
            return False
        return self.choices.pick(2, 1.0 - p) == 1

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("FAULT", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *ev):
        st = current()
        rec = (round(self.now, 6), st.tid if st else -1) + ev
        self._log_hash.update(repr(rec).encode())
        if self.keep_events and len(self.events) < 4000:
            self.events.append(rec)

    def digest(self):
        return self._log_hash.hexdigest()

    def sched_digest(self):
        return self._sched_hash.hexdigest()

    # -- threads ----------------------------------------------------------
    def spawn(self, fn, rank=0, name=None):
        st = SimThread(len(self.threads), rank, name or f"rank{rank}", fn)
        cur = current()
        if cur is not None:
            st.local = cur.local  # children live in the process of their parent
        self.threads.append(st)
        st.thread = threading.Thread(target=self._main, args=(st,), daemon=True)
        st.thread.start()
        return st

    def _main(self, st):
        _CURRENT.st = st
        st.lock.acquire()
        try:
            if self.aborting is not None:
                raise self.aborting
            self._entered(st)
            st.result = st.fn()
        except SimAbort as e:
            st.exc = e
        except BaseException as e:  # noqa: BLE001
            st.exc = e
            st.tb = traceback.format_exc()
            e.__traceback__ = None
        st.state = "done"
        self.log("end", type(st.exc).__name__ if st.exc is not None else "ok")
        try:
            self._dispatch(st, finished=True)
        except BaseException as e:  # noqa: BLE001
            self.harness_error = e
            self.done_lock.release()

    def _entered(self, st):
        self.current_tid = st.tid
        for f in self.on_switch:
            f(st)

    def run(self):
        """Run all spawned threads to completion."""
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested simulation")
        ACTIVE = self
        try:
            self._dispatch(None, finished=True)
            self.done_lock.acquire()
            for st in self.threads:
                st.thread.join(60)
                if st.thread.is_alive():
                    raise HarnessError(f"thread {st.name} did not unwind")
            if self.harness_error is not None:
                raise HarnessError(repr(self.harness_error)) from self.harness_error
        finally:
            ACTIVE = None
        return self.outcome

    # -- scheduling -------------------------------------------------------
    def _runnable(self, st):
        if st.state == "done":
            return False
        if st.stall_until > self.now:
            return False
        if st.state == "ready":
            return True
        if st.wake is not None and self.now >= st.wake:
            return True
        return st.pred is not None and st.pred()

    def _next_event(self):
        t = None
        for st in self.threads:
            if st.state == "done":
                continue
            cand = []
            if st.stall_until > self.now:
                cand.append(st.stall_until)
            if st.state == "blocked" and st.wake is not None:
                cand.append(max(st.wake, st.stall_until))
            for c in cand:
                if c > self.now and (t is None or c < t):
                    t = c
        for src in self.event_sources:
            c = src()
            if c is not None and c > self.now and (t is None or c < t):
                t = c
        return t

    def _dispatch(self, me, finished=False):
        """Choose who runs next; returns when *me* may run again."""
        if self.aborting is None:
            self.steps += 1
            self.now += STEP
            if self.steps > self.max_steps:
                self._abort("budget", f"no completion in {self.max_steps} steps; " + self.where())
        nxt = None
        while self.aborting is None:
            for p in self.pollers:
                p()
            run = [st for st in self.threads if self._runnable(st)]
            if run:
                if self.tick_p and self.chance(self.tick_p):
                    t = self._next_event()
                    if t is not None:
                        self.now = t
                        continue
                if me is not None and not finished and me in run:
                    run.remove(me)
                    run.insert(0, me)
                    nxt = run[self.pick(len(run), 1.0 - self.preempt)]
                else:
                    nxt = run[self.pick(len(run))]
                break
            t = self._next_event()
            if t is not None:
                self.now = t
                continue
            if all(st.state == "done" for st in self.threads):
                if self.outcome is None:
                    self.outcome = "done"
                self.done_lock.release()
                return
            self._abort("deadlock", self.where())
        if nxt is None:
            # Aborting: release the remaining threads one by one so that they unwind
            live = [st for st in self.threads if st.state != "done" and st is not me]
            if me is not None and not finished:
                raise self.aborting
            if not live:
                self.done_lock.release()
                return
            nxt = live[0]
        if nxt is me and not finished:
            return
        self.switches += 1
        self._sched_hash.update(bytes((nxt.tid & 255,)))
        nxt.lock.release()
        if finished:
            return
        me.lock.acquire()
        self._entered(me)
        if self.aborting is not None:
            raise self.aborting

    def where(self):
        return "; ".join(
            f"{st.name}[{st.state}{' ' + st.desc if st.desc else ''}]" for st in self.threads
        )

    def _abort(self, outcome, detail, exc=None):
        if self.aborting is None:
            self.outcome = outcome
            self.detail = detail
            self.log("ABORT", outcome)
            self.aborting = exc or SimAbort(outcome)

    def abort(self, outcome, detail="", crash=False):
        """Tear the run down from a simulated thread."""
        self._abort(outcome, detail, SimCrash(outcome) if crash else None)
        raise self.aborting

    def check_abort(self):
        if self.aborting is not None:
            raise self.aborting

    def step(self, label=None):
        """A scheduling point."""
        st = current()
        if st is None:
            return
        self.check_abort()
        if label is not None:
            self.log(label)
        if self.stall_p and self.stalls_left > 0 and self.chance(self.stall_p):
            self.stalls_left -= 1
            d = (0.003, 0.7, 4.0, 45.0)[self.pick(4)]
            st.stall_until = self.now + d
            self.fault("rank_stall")
        self._dispatch(st)

    def block(self, pred, desc, timeout=None):
        """Block until pred() (or the timeout); True if pred held."""
        st = current()
        if st is None:
            raise HarnessError(f"blocking outside the simulation: {desc}")
        self.check_abort()
        st.state = "blocked"
        st.pred = pred
        st.desc = desc
        st.wake = None if timeout is None else self.now + timeout
        try:
            self._dispatch(st)
        finally:
            if st.state == "blocked":
                st.state = "ready"
            ok = pred() if self.aborting is None else False
            st.pred = None
            st.wake = None
            st.desc = ""
        return ok

    def sleep(self, d):
        self.log("sleep", round(float(d), 6))
        self.block(lambda: False, f"sleep {d}", timeout=max(float(d), 0.0))


class SimLock:
    """A lock between simulated threads (optionally re-entrant by rank)."""

    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.owner = None
        self.depth = 0

    def acquire(self):
        me = current().tid
        self.sim.step()
        while self.owner is not None and self.owner != me:
            self.sim.probe("lock_contended")
            self.sim.block(lambda: self.owner is None, f"lock {self.name}")
        self.owner = me
        self.depth += 1

    def release(self):
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        if self.sim.aborting is None:
            self.sim.step()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
