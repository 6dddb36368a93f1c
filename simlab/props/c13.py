"""C13: the MPI environment check on networks that lose, delay and corrupt messages."""

import time

import numpy as np

from .. import harness
from ..sched import Violation


class P(harness.Prop):
    id = "C13"
    title = "The MPI environment check passes on healthy networks and stops on broken ones"
    rule = (
        "a run = the real check on 1..5 simulated ranks that start at different times, over a network with a random set of lost, "
        "delayed and corrupted messages; it must finish on all ranks iff every message was correct and in time, and abort the job otherwise"
    )
    real = ("caput.pipeline.tasklib.debug", "caput.config")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 500
    thorough_runs = 12000
    hang_s = 240.0
    assumptions = ("a message arriving in the last 6 s before the limit may be judged either way (the check polls every 5 s)",)

    def load(self):
        from caput.pipeline.tasklib import debug

        self.cls = debug.CheckMPIEnvironment

    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 2, 3, 3, 4, 5]) if i % 4 else rng.choice([2, 3])
        timeout = rng.choice([None, 1, 7, 10, 30, 60, 240, 600])
        T = timeout or 240
        lag = [rng.choice([0, 0, 0, 1, 4, T * 0.3]) for _ in range(n)]
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
            s, d = rng.randrange(n), rng.randrange(n)
            k = rng.choice(["drop", "late", "late", "slow", "slow", "flip", "tail", "zero", "swap", "nan"])
            if any(f[:2] == [s, d] for f in faults):
                continue
            base = lag[d] - lag[s]
            if k == "late":
                faults.append([s, d, "delay", base + T + rng.choice([7, 30, 1000, 1e6])])
            elif k == "slow":
                faults.append([s, d, "delay", max(0, rng.choice([0.5, 3, base + T * 0.5, base + T - 7]))])
            else:
                faults.append([s, d, k, rng.randrange(500000)])
        env = harness.gen_env(rng)
        env["stall_p"] = env["tick_p"] = 0.0  # a process that is itself stalled past the limit proves nothing about the network
        env["delay_p"] = rng.choice([0.0, 0.0, 0.3])
        return {"n": n, "timeout": timeout, "lag": lag, "faults": faults, "env": env,
                "skew": [rng.choice([0, 0, -3600, 1e5, 0.5]) for _ in range(n)]}

    def classify(self, program):
        """'good', 'bad' or 'either'."""
        T = program["timeout"] or 240
        n, lag = program["n"], program["lag"]
        out = "good"
        delays = {(f[0], f[1]): f for f in program["faults"]}
        for s in range(n):
            for d in range(n):
                f = delays.get((s, d))
                if f is not None and f[2] != "delay":
                    return "bad"
                arr = lag[s] + (f[3] if f else 0)
                if arr > lag[d] + T + 2:
                    return "bad"
                if arr > lag[d] + T - 6.5:
                    out = "either"
        return out

    def execute(self, program, ctx):
        n, T = program["n"], program["timeout"] or 240
        lag = program["lag"]
        fl = {(f[0], f[1]): f for f in program["faults"]}
        bad = []

        def prepare(sim, world):
            sim.clock_skew = dict(enumerate(program["skew"]))

            def fault(m):
                f = fl.get((m.src, m.dst))
                if f is None:
                    return 0.0
                if f[2] == "delay":
                    sim.fault("msg_delayed")
                    return f[3]
                if f[2] == "drop":
                    sim.fault("msg_lost")
                    m.dropped = True
                    return 0.0
                data = m.data if m.data is not None else m.sbuf.read()
                a = np.frombuffer(bytes(data), dtype=np.float64).copy()
                k = f[3] % len(a)
                if f[2] == "flip":
                    a[k] += 1.0
                elif f[2] == "nan":
                    a[k] = np.nan
                elif f[2] == "zero":
                    a[k:k + 100] = -7.0
                elif f[2] == "tail":
                    a[k:] = -1.0
                elif f[2] == "swap":
                    a += len(a)
                sim.fault("msg_corrupted")
                b = a.tobytes()
                m.data = b if isinstance(data, bytes) else np.frombuffer(b, np.uint8).copy()
                m.sync = False
                return 0.0

            world.msg_fault = fault

        def rank_main(wr):
            if lag[wr]:
                time.sleep(lag[wr])
            t = self.cls._from_config({} if program["timeout"] is None else {"timeout": program["timeout"]})
            t.setup()
            return True

        run = ctx.simulate(n, rank_main, program["env"], prepare=prepare)
        kind = self.classify(program)
        ctx.probe(kind)
        what = f"{n} ranks, limit {T} s, starting at {lag}, faults {program['faults']}:"
        if run.outcome == "deadlock" or run.outcome == "budget":
            raise Violation("hang", f"{what} {run.sim.detail}")
        if any(run.real_excs()) or run.outcome == "misuse":
            ctx.require_clean(run, what)
        limit = max(lag) + T + 15
        if run.sim.now > limit:
            raise Violation("too-late", f"{what} decided after {run.sim.now:.0f} s (limit {limit:.0f})")
        if kind == "good" and run.outcome != "done":
            raise Violation("false-alarm", f"{what} the check stopped the run ({run.sim.detail})")
        if kind == "bad" and run.outcome != "mpi_abort":
            raise Violation("not-stopped", f"{what} the check let the run continue (outcome {run.outcome})")
        if kind == "bad" and any(r for r in run.results[:n]):
            raise Violation("not-stopped", f"{what} ranks {[i for i, r in enumerate(run.results[:n]) if r]} continued before the job was stopped")
        return bad

    def describe(self, program):
        return {k: program[k] for k in ("n", "timeout", "lag", "faults")}

    def shrink(self, program):
        for i in range(len(program["faults"])):
            yield dict(program, faults=program["faults"][:i] + program["faults"][i + 1:])
        for p in super().shrink(program):
            if p["n"] < program["n"]:
                k = p["n"]
                p["lag"], p["skew"] = p["lag"][:k], p["skew"][:k]
                p["faults"] = [f for f in p["faults"] if f[0] < k and f[1] < k]
            yield p


PROP = P()
