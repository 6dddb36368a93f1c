"""C12: random tasks on several processes, run twice under different timings and once from the recorded seed."""

import logging
import re

import numpy as np

from .. import harness
from ..sched import Violation, active, current


class _Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.msgs = {}

    def emit(self, record):
        if active() is not None:
            self.msgs.setdefault(current().rank, []).append(record.getMessage())


class P(harness.Prop):
    id = "C12"
    title = "Random tasks are reproducible and independent across processes"
    rule = (
        "a run = 1 to 3 random tasks (configured seed or none) on 1..6 simulated ranks, each rank drawing at its own speed; "
        "streams compared between two differently scheduled runs, with a run from the seed that was logged, between ranks and between tasks"
    )
    real = ("caput.pipeline.tasklib.random", "caput.algorithms.random", "caput.config")
    stub = ("mpi4py (simulated network)", "thread pool (simulated threads)", "operating system entropy (seeded per process)")
    quick_runs = 4000
    thorough_runs = 150000

    def load(self):
        from caput.pipeline.tasklib import random

        class Noise(random.RandomTask):
            pass

        class Sky(random.RandomTask):
            pass

        self.cls = {"Noise": Noise, "Sky": Sky}
        self.log = _Capture()

    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 4, 5, 6])
        tasks = [{"cls": rng.choice(["Noise", "Sky"]), "seed": rng.choice([None, None, 0, 1, 99, rng.randrange(1 << 31), rng.randrange(1 << 90)]),
                  "threads": rng.choice([None, 1, 2, 4, 5])} for _ in range(rng.randrange(1, 4))]
        draws = [[rng.randrange(len(tasks)), rng.choice(["normal", "random", "integers"]), rng.choice([1, 5, 20, 1000, 1100, 1503])]
                 for _ in range(rng.randrange(1, 6))]
        # every task's generator is first used by all processes (documented as collective when unseeded)
        for k in range(len(tasks)):
            if not any(d[0] == k for d in draws):
                draws.append([k, "random", 12])
        env, env2 = harness.gen_env(rng), harness.gen_env(rng)
        env2["salt"] = env["salt"]
        return {"n": n, "tasks": tasks, "draws": draws, "env": env, "env2": env2,
                "lag": [rng.choice([0, 0, 0.5, 30]) for _ in range(n)], "rank_draws": rng.random() < 0.5}

    def world(self, program, ctx, env, seeds):
        cls = self.cls
        out = {}
        root = logging.getLogger()
        level = root.level
        handlers = root.handlers[:]
        self.log.msgs = {}
        init_msgs = {}

        def prepare(sim, world):
            sim.threads_cfg = {}
            logging.disable(logging.NOTSET)
            root.setLevel(logging.DEBUG)
            root.handlers[:] = [self.log]

        def finish(sim, world):
            logging.disable(logging.CRITICAL)
            root.setLevel(level)
            root.handlers[:] = handlers

        def rank_main(wr):
            tasks = []
            for k, t in enumerate(program["tasks"]):
                conf = {}
                if seeds[k] is not None:
                    conf["seed"] = seeds[k]
                if t["threads"] is not None:
                    conf["threads"] = t["threads"]
                before = len(self.log.msgs.get(wr, []))
                tasks.append(cls[t["cls"]]._from_config(conf))
                init_msgs[(wr, k)] = self.log.msgs.get(wr, [])[before:]
            if program["lag"][wr % len(program["lag"])]:
                import time

                time.sleep(program["lag"][wr % len(program["lag"])])
            for k, m, size in program["draws"]:
                before = len(self.log.msgs.get(wr, []))
                g = tasks[k].rng
                init_msgs[(wr, k)] += self.log.msgs.get(wr, [])[before:]
                if tasks[k].rng is not g:
                    raise Violation("new-generator", "the generator of a task changed between two accesses")
                # processes may draw different amounts: streams stay independent
                size = size + wr if program["rank_draws"] else size
                a = g.integers(0, 1 << 40, size=size) if m == "integers" else getattr(g, m)(size=size)
                out.setdefault((wr, k), []).append((m, np.array(a)))
            return [t.local_seed for t in tasks]

        run = ctx.simulate(program["n"], rank_main, env, prepare=prepare, finish=finish)
        ctx.require_clean(run, "random tasks:")
        harness.require_no_leftovers(run)
        return out, init_msgs, run.results[: program["n"]]

    def same(self, a, b):
        return a.keys() == b.keys() and all(
            len(a[k]) == len(b[k]) and all(x[0] == y[0] and np.array_equal(x[1], y[1]) for x, y in zip(a[k], b[k])) for k in a)

    def execute(self, program, ctx):
        tasks, n = program["tasks"], program["n"]
        seeds = [t["seed"] for t in tasks]
        out, msgs, local = self.world(program, ctx, program["env"], seeds)
        # distinct streams: no value of a continuous draw appears twice anywhere
        ident = {}
        for (wr, k), lst in out.items():
            sid = (tasks[k]["cls"], tasks[k]["seed"], tasks[k]["threads"]) if tasks[k]["seed"] is not None else k
            for m, a in lst:
                for x in a[:6]:
                    if m == "random" and 0 < x < 1 or m in ("normal", "integers"):
                        ident.setdefault((m, x), set()).add((wr, sid))
        for (m, x), who in ident.items():
            ranks = {w for w, _ in who}
            if len(ranks) > 1:
                raise Violation("shared-stream", f"processes {sorted(ranks)} drew the same value {x!r} (tasks {tasks})")
            # tasks of different classes with one seed
            if len(who) > 1 and len({s[0] if isinstance(s, tuple) else s for _, s in who}) > 1:
                raise Violation("shared-stream", f"different tasks drew the same value {x!r} on one process (tasks {tasks})")
        for k, t in enumerate(tasks):
            ls = [r[k] for r in local]
            if len(set(ls)) != n:
                raise Violation("shared-stream", f"task {t}: local seeds {ls} are not distinct")
        # the same run again, under another timing
        if all(s is not None for s in seeds):
            again, _, _ = self.world(program, ctx, program["env2"], seeds)
            if not self.same(out, again):
                raise Violation("not-reproducible", f"a second run with seeds {seeds} on {n} processes drew other numbers")
        # a run without a seed can be repeated from what it recorded
        if any(s is None for s in seeds):
            cand = []
            for k, t in enumerate(tasks):
                if seeds[k] is not None:
                    cand.append([seeds[k]])
                    continue
                ints = []
                for wr in range(n):
                    ints.append({int(x) for m in msgs[(wr, k)] for x in re.findall(r"(?<![\w.])\d+(?![\w.])", m)})
                if not ints[0]:
                    raise Violation("seed-not-recorded", f"task {t}: process 0 recorded no seed ({msgs[(0, k)]})")
                cand.append(sorted(ints[0], reverse=True))
            pick = [c[0] for c in cand]
            again, _, _ = self.world(program, ctx, program["env2"], pick)
            if not self.same(out, again):
                raise Violation("not-reproducible", f"a run repeated from the recorded seeds {pick} on {n} processes drew other numbers")
            ctx.probe("unseeded")
        ctx.probe(f"n{n}")

    def describe(self, program):
        return {k: program[k] for k in ("n", "tasks", "draws")}

    def shrink(self, program):
        for i in range(len(program["draws"])):
            d = program["draws"][:i] + program["draws"][i + 1:]
            if all(any(x[0] == k for x in d) for k in range(len(program["tasks"]))):
                yield dict(program, draws=d)
        yield from super().shrink(program)


PROP = P()
