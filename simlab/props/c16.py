"""C16: uncaught errors on some ranks while the others are blocked in something, and rank-filtered logging."""

import logging
import os
import re
import time

import numpy as np

from .. import harness, models
from ..procstate import ProcState
from ..sched import SimAbort, Violation, active, current

R = models

PLAN = {}  # what the simulated pipeline task does (set per run)


class Odd(Exception):
    """An exception that cannot print itself."""

    def __str__(self):
        raise RuntimeError("no text")


class Own(BaseException):
    pass


ERRORS = {
    "ValueError": lambda: ValueError("planted failure 4711"),
    "empty": lambda: RuntimeError(),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("planted failure 4711"),
    "MemoryError": lambda: MemoryError("planted failure 4711"),
    "OSError": lambda: OSError(28, "planted failure 4711"),
    "KeyError": lambda: KeyError("planted failure 4711"),
    "StopIteration": lambda: StopIteration("planted failure 4711"),
    "Own": lambda: Own("planted failure 4711"),
    "Odd": Odd,
    "group": lambda: ExceptionGroup("planted failure 4711", [ValueError("a"), KeyError("b")]),
    "chained": None,
    "AssertionError": lambda: AssertionError("planted failure 4711"),
    "recursion": lambda: RecursionError("planted failure 4711"),
}


def throw(kind):
    if kind == "chained":
        try:
            raise KeyError("first")
        except KeyError as e:
            raise RuntimeError("planted failure 4711") from e
    raise ERRORS[kind]()


OPS = ("barrier", "allreduce", "bcast", "ring", "recv", "redist", "pmap", "sleep", "lock", "compute", "gather")
FLUSH = {
    "full": lambda: OSError(28, "No space left on device (injected)"),
    "pipe": lambda: BrokenPipeError(32, "Broken pipe (injected)"),
    "closed": lambda: ValueError("I/O operation on closed file (injected)"),
}
LEVELS = (5, 10, 15, 20, 25, 30, 40, 50)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.out = []

    def emit(self, record):
        if active() is not None:
            active().step()
        self.out.append((record, self.format(record)))


class P(harness.Prop):
    id = "C16"
    title = "An uncaught error on one process stops every process"
    rule = (
        "a run = 1..6 ranks executing a random list of collective, point-to-point, file and compute steps (or a whole pipeline from a "
        "configuration file) with uncaught errors of any kind on some ranks at some steps, with or without the exception hook and with failing "
        "standard streams; the job must end everywhere in bounded virtual time, as failed and after the report; or random log records on every rank "
        "through the log filter, compared with the configured levels"
    )
    real = ("caput.util.mpitools", "caput.pipeline.runner", "caput.pipeline", "caput.pipeline.tasklib.base", "caput.mpiarray", "caput.memdata._io")
    stub = ("mpi4py (simulated network)", "clock", "interpreter shutdown, sys.excepthook dispatch and standard streams per simulated process")
    quick_runs = 5000
    thorough_runs = 200000
    assumptions = ("an interpreter calls sys.excepthook for every uncaught exception except SystemExit",)

    def load(self):
        from caput import mpiarray
        from caput.memdata import _io
        from caput.pipeline import _pipeline
        from caput.pipeline.runner import _core
        from caput.pipeline.tasklib import base
        from caput.util import mpitools

        self.ma, self.mt, self.core, self.base, self.io = mpiarray, mpitools, _core, base, _io

        class Failing(_pipeline.Task):
            """Communicates and fails according to PLAN."""

            def __init__(self):
                super().__init__()
                PLAN["step"]("init", 0)

            def setup(self):
                PLAN["step"]("setup", 0)

            def next(self):
                k = self._n = getattr(self, "_n", 0) + 1
                if k > PLAN["items"]:
                    raise _pipeline.exceptions.PipelineStopIteration() if hasattr(_pipeline, "exceptions") else StopIteration()
                PLAN["step"]("next", k)
                return k

            def finish(self):
                PLAN["step"]("finish", 0)

        class Log(base.MPILoggedTask):
            pass

        class Plain(base.LoggedTask):
            pass

        globals().update(Failing=Failing, Log=Log, Plain=Plain)
        for c in (Failing, Log, Plain):
            c.__module__ = __name__

    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        env = harness.gen_env(rng)
        if i % 4 == 3:
            lv = list(LEVELS) + ["DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL"]
            recs = []
            for _ in range(rng.randrange(1, 8)):
                recs.append([rng.choice(["root", "named", "task", "plain", "extra", "comm"]), rng.choice(LEVELS), rng.randrange(n)])
            return {"mode": "log", "n": n, "level0": rng.choice([None, *lv]), "all": rng.choice([None, *lv]), "info": rng.random() < 0.8,
                    "task_level": rng.choice([None, None, *lv]), "handlers": rng.choice([1, 1, 2]), "ops": recs, "env": env}
        ops = [rng.choice(OPS) for _ in range(rng.randrange(1, 6))]
        errs = []
        for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3])):
            errs.append([rng.randrange(n), rng.randrange(len(ops)), rng.choice(list(ERRORS))])
        faults = []
        if rng.random() < 0.3:
            for _ in range(rng.randrange(1, 4)):
                faults.append([rng.randrange(n), rng.choice(["stdout", "stderr"]), rng.choice(list(FLUSH))])
        mode = rng.choice(["direct", "direct", "pipeline"])
        p = {"mode": mode, "n": n, "ops": ops, "errs": errs, "faults": faults, "hook": rng.random() < 0.85, "talk": rng.random() < 0.5,
             "env": env, "twice": rng.random() < 0.1}
        if mode == "pipeline":
            p["items"] = rng.randrange(0, 4)
            p["errs"] = [[r, rng.choice(["init", "setup", "next", "finish"]), rng.randrange(1, max(2, p["items"] + 1)), k] for r, _, k in errs]
        return p

    def directed(self):
        env = dict(harness.QUIET)
        base = {"mode": "direct", "n": 3, "ops": ["barrier", "ring"], "errs": [[1, 1, "ValueError"]], "faults": [], "hook": True, "talk": True, "env": env, "twice": False}
        return [base, dict(base, faults=[[1, "stdout", "full"]]), dict(base, errs=[[2, 0, "KeyboardInterrupt"]], faults=[[2, "stderr", "pipe"]])]

    def execute(self, program, ctx):
        if program["mode"] == "log":
            return self.execute_log(program, ctx)
        n, ops = program["n"], program["ops"]
        MPI, mt = self.mt.MPI, self.mt
        st = {}
        raised = {}
        talked = {}
        d = ctx.dir()
        pipeline = program["mode"] == "pipeline"

        def prepare(sim, world):
            st["ps"] = ProcState(sim, n, {(r, s): FLUSH[k] for r, s, k in program["faults"]})

        def finish(sim, world):
            st["ps"].restore()

        def fail(wr, kind):
            if program["talk"]:
                print("last words", end="")
                talked[wr] = True
            raised[wr] = (active().now, kind)
            throw(kind)

        def one_op(q, op, wr, world, err):
            size = world.Get_size()
            if op == "pmap":
                def f(x):
                    if err is not None and x % size == wr:
                        fail(wr, err)
                    return x

                mt.parallel_map(f, list(range(size)))
            elif err is not None and op == "lock":
                with self.io.lock_file(os.path.join(d, f"f{q}"), comm=world) as fn:
                    if wr == 0:
                        with open(fn, "w") as fh:
                            fh.write("x")
                    fail(wr, err)
            elif err is not None:
                fail(wr, err)
            elif op == "barrier":
                world.Barrier()
            elif op == "allreduce":
                mt.allreduce(wr)
            elif op == "bcast":
                mt.bcast(wr, root=size - 1)
            elif op == "gather":
                world.gather(wr, root=0)
            elif op == "ring":
                world.sendrecv(wr, (wr + 1) % size, q, None, (wr - 1) % size, q)
            elif op == "recv":
                if wr == 0:
                    for r in range(1, size):
                        world.recv(source=r, tag=q)
                else:
                    world.send(np.arange(3), 0, tag=q)
            elif op == "redist":
                a = self.ma.MPIArray((size + 1, size + 2), axis=0, comm=world)
                a.redistribute(1)
            elif op == "sleep":
                time.sleep(0.5 + wr)
            elif op == "lock":
                with self.io.lock_file(os.path.join(d, f"f{q}"), comm=world) as fn:
                    if wr == 0:
                        with open(fn, "w") as fh:
                            fh.write("x")
                    world.Barrier()
            else:
                active().step()

        def direct(wr):
            if program["hook"]:
                mt.enable_mpi_exception_handler()
                if program["twice"]:
                    mt.enable_mpi_exception_handler()
            for q, op in enumerate(ops):
                err = next((e[2] for e in program["errs"] if e[0] == wr and e[1] == q), None)
                one_op(q, op, wr, MPI.COMM_WORLD, err)

        def task_step(stage, k):
            wr = current().rank
            err = next((e[3] for e in program["errs"] if e[0] == wr and e[1] == stage and (stage != "next" or e[2] == k)), None)
            if err is not None:
                fail(wr, err)
            one_op(k + {"finish": 50, "init": 90}.get(stage, 0), ops[k % len(ops)] if ops[k % len(ops)] != "pmap" else "barrier", wr, MPI.COMM_WORLD, None)

        if pipeline:
            conf = os.path.join(d, "conf.yaml")
            with open(conf, "w") as fh:
                fh.write(f"pipeline:\n  tasks:\n    - type: {__name__}.Failing\n      out: x\n")
            PLAN.update(step=task_step, items=program["items"])

        def rank_main(wr):
            if pipeline:
                return ProcState.interpreter(lambda: self.core.run_pipeline(conf, False, "cProfile", program["hook"], False))[0]
            return ProcState.interpreter(lambda: direct(wr))[0]

        run = ctx.simulate(n, rank_main, program["env"], prepare=prepare, finish=finish)
        what = f"{n} ranks, {program['mode']}, hook {program['hook']}, {ops}, errors {program['errs']}, stream faults {program['faults']}:"
        aborted = run.world.aborted
        ctx.probe("errors" if raised else "no_errors")
        if not raised:
            ctx.require_clean(run, what)
            if set(run.results[:n]) != {"ok"}:
                err = "; ".join(st["ps"].streams[r]["stderr"].seen[-200:] for r in range(n))
                raise Violation("spurious-error", f"{what} ranks ended {run.results[:n]}: {err}")
            return
        if not program["hook"]:
            if aborted:
                raise Violation("aborted", f"{what} the job was aborted although the hook was not enabled")
            ctx.probe("not_hooked")
            return
        if run.outcome == "partial_abort":
            raise Violation("not-stopped", f"{what} {run.sim.detail}")
        if run.outcome != "mpi_abort":
            raise Violation("not-stopped", f"{what} outcome {run.outcome} {run.sim.detail}")
        who, code, when = aborted
        if not code:
            raise Violation("wrong-status", f"{what} the job was aborted with status 0")
        if who not in raised:
            raise Violation("aborted", f"{what} rank {who} aborted the job without an error of its own")
        t0 = min(t for t, _ in raised.values())
        slack = 50.0 * run.sim.faults.get("rank_stall", 0)
        if when - t0 > 60 + slack:
            raise Violation("too-late", f"{what} the job went on for {when - t0:.0f} s after the first error")
        faulty = {(r, s) for r, s, _ in program["faults"]}
        ps = st["ps"].streams[who]
        if (who, "stderr") not in faulty:
            text = ps["stderr"].seen
            kind = raised[who][1]
            name = {"empty": "RuntimeError", "group": "ExceptionGroup", "chained": "RuntimeError", "recursion": "RecursionError"}.get(kind, kind)
            if name not in text or (kind not in ("empty", "Odd") and "planted failure 4711" not in text):
                raise Violation("not-reported", f"{what} rank {who} aborted before reporting its {name}; it reported {text[-200:]!r}")
        if talked.get(who) and (who, "stdout") not in faulty and "last words" not in ps["stdout"].seen:
            raise Violation("output-lost", f"{what} rank {who} aborted with unflushed output")
        ctx.probe("stopped")

    # -- logging ---------------------------------------------------------------
    def execute_log(self, program, ctx):
        n = program["n"]
        MPI = self.mt.MPI
        st = {}
        num = {"DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
        l0, la, tl = (num.get(program[k], program[k]) for k in ("level0", "all", "task_level"))
        l0 = logging.INFO if l0 is None else l0
        la = logging.WARN if la is None else la

        def prepare(sim, world):
            st["ps"] = ProcState(sim, n)

        def finish(sim, world):
            st["ps"].restore()

        def rank_main(wr):
            root = logging.getLogger()
            root.setLevel(1)
            caps = [Capture() for _ in range(program["handlers"])]
            for c in caps:
                root.addHandler(c)
            conf = {k: v for k, v in (("level_rank0", program["level0"]), ("level_all", program["all"])) if v is not None}
            self.base.SetMPILogging._from_config(conf)
            tconf = {} if tl is None else {"log_level": program["task_level"]}
            task = Log._from_config(tconf)
            plain = Plain._from_config(tconf)
            sub = MPI.COMM_WORLD.Split(wr % 2, -wr)
            own = logging.getLogger("own")
            own.propagate = False
            own.setLevel(1)
            ownh = Capture()
            kw = {k: v for k, v in (("level_rank0", l0 if program["level0"] else None), ("level_all", la if program["all"] else None)) if v is not None}
            ownh.addFilter(self.mt.MPILogFilter(add_mpi_info=program["info"], comm=sub, **kw))
            own.addHandler(ownh)
            for q, (how, level, other) in enumerate(program["ops"]):
                what = f"record {q} {how} level {level} on rank {wr}/{n} (rank 0: {l0}, others: {la}, task: {tl})"
                msg = f"message {q} from {wr}"
                for c in (*caps, ownh):
                    c.out.clear()
                er, es = wr, n
                enabled = True
                use = caps
                if how == "root":
                    root.log(level, msg)
                elif how == "named":
                    logging.getLogger("a.b").log(level, msg)
                elif how == "task":
                    task.log.log(level, msg)
                    enabled = tl is None or level >= tl
                elif how == "plain":
                    plain.log.log(level, msg)
                    enabled = tl is None or level >= tl
                elif how == "extra":
                    er, es = other, n + 1
                    root.log(level, msg, extra={"mpi_rank": other, "mpi_size": n + 1})
                else:
                    own.log(level, msg)
                    use = [ownh]
                    er, es = sub.Get_rank(), sub.Get_size()
                exp = enabled and level >= (l0 if er == 0 else la)
                for c in use:
                    if bool(c.out) != exp or len(c.out) > 1:
                        raise Violation("wrong-filter", f"{what}: shown {len(c.out)} times, expected {int(exp)}")
                    if not exp:
                        continue
                    rec, text = c.out[0]
                    if msg not in text:
                        raise Violation("message-lost", f"{what}: shown as {text!r}")
                    if how != "comm" or program["info"]:
                        if (getattr(rec, "mpi_rank", None), getattr(rec, "mpi_size", None)) != (er, es):
                            raise Violation("wrong-rank", f"{what}: marked {getattr(rec, 'mpi_rank', None)}/{getattr(rec, 'mpi_size', None)}, expected {er}/{es}")
                    if use is caps and not re.search(rf"\b{er}\s*/\s*{es}\b", text):
                        raise Violation("wrong-rank", f"{what}: shown as {text!r}, expected rank {er}/{es}")
                    if abs(rec.elapsedTime - rec.relativeCreated * 1e-3) > 1e-9:
                        raise Violation("wrong-time", f"{what}: elapsed time {rec.elapsedTime}")
            return True

        run = ctx.simulate(n, rank_main, program["env"], prepare=prepare, finish=finish)
        ctx.require_clean(run, "logging:")
        ctx.probe("log_runs")

    def describe(self, program):
        return {k: v for k, v in program.items() if k != "env"}

    def shrink(self, program):
        for key in ("errs", "faults"):
            for i in range(len(program.get(key, []))):
                q = dict(program)
                q[key] = program[key][:i] + program[key][i + 1:]
                yield q
        for p in super().shrink(program):
            if p["n"] < program["n"]:
                k = p["n"]
                for key in ("errs", "faults"):
                    if key in p:
                        p[key] = [e for e in p[key] if e[0] < k]
                if p["mode"] == "log":
                    p["ops"] = [o for o in p["ops"] if o[2] < k]
            if not p["ops"]:
                continue
            yield p


PROP = P()
