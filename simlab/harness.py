"""One simulated run: build the world from a program, run it, judge the outcome."""

import gc
import os
import random
import shutil
import tempfile

import numpy as np

from . import fakempi, sched
from .sched import HarnessError, SimAbort, Violation

SCRATCH = None


def scratch_root():
    """A private directory for this process, removed at exit."""
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        SCRATCH = tempfile.mkdtemp(prefix="simlab-", dir=base)
        import atexit

        pid = os.getpid()

        def rm(path=SCRATCH, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(rm)
    return SCRATCH


def gen_env(rng, faults=True, nodes=None, n=1):
    """Swarm configuration: every run searches with its own mix of schedule and faults."""
    env = {
        "preempt": rng.choice([0.0, 0.1, 0.3, 0.6, 0.9]),
        "tick_p": rng.choice([0.0, 0.02, 0.1]),
        "send_mode": rng.choice(["eager", "sync", "mixed", "mixed"]),
        "fill_mode": rng.choice(["early", "late", "mixed"]),
        "coll_sync": rng.choice(["always", "never", "mixed"]),
        "delay_p": rng.choice([0.0, 0.2, 0.6, 0.95]),
        "salt": rng.randrange(1000),
        "stall_p": 0.0,
        "max_stalls": 0,
    }
    if faults and rng.random() < 0.5:
        env["stall_p"] = rng.choice([0.01, 0.05, 0.2])
        env["max_stalls"] = rng.randrange(1, 6)
    if not faults:
        env["delay_p"] = 0.0
    return env


QUIET = {
    "preempt": 0.0, "tick_p": 0.0, "send_mode": "eager", "fill_mode": "early",
    "coll_sync": "always", "delay_p": 0.0, "salt": 0, "stall_p": 0.0, "max_stalls": 0,
}


class Run:
    """A finished (or torn down) simulation."""

    def __init__(self, sim, world):
        self.sim = sim
        self.world = world
        self.outcome = sim.outcome
        self.results = [st.result for st in sim.threads]
        self.excs = [st.exc for st in sim.threads]
        self.tbs = [st.tb for st in sim.threads]

    def real_excs(self):
        return [e if e is not None and not isinstance(e, SimAbort) else None for e in self.excs]


class Stats:
    """What a run covered (summed over the simulations of one program)."""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.switches = 0
        self.vtime = 0.0
        self.messages = 0
        self.sims = 0
        self.digests = []
        self.sched = []

    def add(self, sim, world):
        for d, s in ((self.faults, sim.faults), (self.probes, sim.probes)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        self.steps += sim.steps
        self.switches += sim.switches
        self.vtime += sim.now
        self.messages += world.messages if world else 0
        self.sims += 1
        self.digests.append(sim.digest())
        self.sched.append(sim.sched_digest())

    def asdict(self):
        return {
            "faults": self.faults, "probes": self.probes, "steps": self.steps,
            "switches": self.switches, "vtime": self.vtime, "messages": self.messages,
            "sims": self.sims, "digest": "/".join(self.digests), "sched": "/".join(self.sched),
        }


class Ctx:
    """What a property gets to execute one program."""

    def __init__(self, choices, stats=None):
        self.choices = choices
        self.stats = stats or Stats()
        self.trace = []
        self._dir = None

    def probe(self, name, n=1):
        self.stats.probes[name] = self.stats.probes.get(name, 0) + n

    def dir(self):
        """A fresh scratch directory for this program (removed afterwards)."""
        if self._dir is None:
            # A fixed name: paths are part of what the code under test sees
            self._dir = os.path.join(scratch_root(), "run")
            shutil.rmtree(self._dir, ignore_errors=True)
            os.makedirs(self._dir)
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def simulate(self, n, fn, env, node_of=None, max_steps=60000, prepare=None, finish=None):
        """Run fn(rank) on n simulated ranks."""
        sim = sched.Sim(
            self.choices, max_steps=max_steps, preempt=env["preempt"], stall_p=env["stall_p"],
            max_stalls=env["max_stalls"], tick_p=env["tick_p"],
        )
        sim.hash_salt = env.get("salt", 0)
        sim.serial = len(self.trace)
        np.random.seed(env.get("salt", 0))
        world = fakempi.World(sim, n, node_of, env)
        if prepare is not None:
            prepare(sim, world)
        for r in range(n):
            sim.spawn((lambda r=r: fn(r)), rank=r)
        gc_was = gc.isenabled()
        gc.disable()
        try:
            sim.run()
        finally:
            if gc_was:
                gc.enable()
            g = fakempi.MPITOOLS_GLOBALS
            if g is not None:
                g["rank"], g["size"], g["rank0"] = 0, 1, True
            self.trace.append(sim)
            self.stats.add(sim, world)
            if finish is not None:
                finish(sim, world)
        run = Run(sim, world)
        for e, tb in zip(run.excs, run.tbs):
            if isinstance(e, HarnessError):
                raise HarnessError(f"{e}\n{tb}")
            if isinstance(e, Violation):
                raise e
        return run

    def require_clean(self, run, what=""):
        """The run ended, on every rank, without an error, deadlock or misuse of MPI."""
        bad = [(i, e) for i, e in enumerate(run.real_excs()) if e is not None]
        if bad:
            i, e = bad[0]
            tb = (run.tbs[i] or "").strip().splitlines()
            where = [ln.strip() for ln in tb if "/caput/" in ln][-1:]
            raise Violation(
                "exception",
                f"{what} rank {i} of {len(run.excs)} raised {type(e).__name__}: {str(e)[:200]} {where} "
                f"({len(bad)} ranks raised; run outcome {run.outcome})",
            )
        if run.outcome == "deadlock":
            raise Violation("deadlock", f"{what} {run.sim.detail}")
        if run.outcome == "budget":
            raise Violation("no-progress", f"{what} {run.sim.detail}")
        if run.outcome == "misuse":
            raise Violation("mpi-misuse", f"{what} {run.sim.detail}")
        if run.outcome != "done":
            raise Violation("aborted", f"{what} outcome {run.outcome}: {run.sim.detail}")


def require_no_leftovers(run, what=""):
    un, po = run.world.leftovers()
    if un or po:
        raise Violation(
            "message-leak", f"{what} {un} messages sent and never received, {po} receives never matched"
        )


def seed_for(base, prop, i):
    import hashlib

    return int.from_bytes(hashlib.blake2b(f"{base}/{prop}/{i}".encode(), digest_size=8).digest(), "big")


class Prop:
    """Base class of the checks; subclasses decide one property."""

    id = "C00"
    title = ""
    level = "exploration"
    rule = ""
    real = ()
    stub = ()
    quick_runs = 400
    thorough_runs = 20000
    hang_s = 120.0
    assumptions = ()

    def load(self):
        """Imports (after the bootstrap, before any run)."""

    def directed(self):
        """Programs that every check runs first (regressions of fixed defects)."""
        return []

    def generate(self, rng, i):
        raise NotImplementedError

    def execute(self, program, ctx):
        raise NotImplementedError

    def shrink(self, program):
        """Smaller programs, most drastic first."""
        ops = program.get("ops")
        if ops:
            n = len(ops)
            k = n // 2
            while k >= 1:
                for s in range(0, n, k):
                    q = dict(program)
                    q["ops"] = ops[:s] + ops[s + k :]
                    if len(q["ops"]) < n:
                        yield q
                k //= 2
        if program.get("n", 1) > 1:
            for m in range(1, program["n"]):
                q = dict(program)
                q["n"] = m
                if "node_of" in q and q["node_of"] is not None:
                    q["node_of"] = q["node_of"][:m]
                yield q
        env = program.get("env")
        if env:
            for k, v in QUIET.items():
                if env.get(k) != v:
                    q = dict(program)
                    q["env"] = dict(env)
                    q["env"][k] = v
                    yield q

    def run_one(self, program, choices):
        """-> (violation or None, stats, ctx)."""
        ctx = Ctx(choices)
        v = None
        try:
            self.execute(program, ctx)
        except Violation as e:
            v = e
        finally:
            ctx.cleanup()
        return v, ctx.stats, ctx


def rng_for(seed):
    return random.Random(seed)
