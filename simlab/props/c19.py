"""C19: usage profiling: the sampling thread, the interval covered, the files written."""

import collections
import contextlib
import copy
import csv
import os

import yaml

from .. import fs as F
from .. import harness
from ..sched import Violation, active, current

CPU = collections.namedtuple("pcputimes", ["user", "system", "children_user", "children_system", "iowait"])
IO = collections.namedtuple("pio", ["read_count", "write_count", "read_bytes", "write_bytes", "read_chars", "write_chars"])
MEM = collections.namedtuple("pfullmem", ["rss", "uss"])
VM = collections.namedtuple("svmem", ["total", "available", "used"])
TOTAL = 1 << 40
SEG = 0.25  # the system's memory use changes at multiples of this


class Boom(Exception):
    pass


class Machine:
    """What the operating system would report: counters that only the harness' work changes."""

    def __init__(self, p, n):
        self.p = p
        self.cpu = [[0.0] * 5 for _ in range(n)]
        self.io = [[0] * 6 for _ in range(n)]
        self.uss = [1000 * (r + 1) for r in range(n)]
        self.calls = 0
        self.broken = 0
        self.last = {}
        self.samples = []

    def used(self, t):
        lv = self.p["levels"]
        return lv[int(t / SEG + 1e-9) % len(lv)]

    def maybe(self, what):
        sim = active()
        sim.step()
        self.calls += 1
        if self.p["ps_fail"] is not None and self.calls == self.p["ps_fail"]:
            import psutil

            sim.fault("psutil_failure")
            self.broken += 1
            raise psutil.AccessDenied(1, what)

    def work(self, w):
        r = current().rank
        self.cpu[r][0] += w["cpu"]
        self.cpu[r][1] += w["sys"]
        self.cpu[r][4] += w["wait"]
        for i, v in enumerate(w["io"]):
            self.io[r][i] += v
        self.uss[r] += w["uss"]

    # -- psutil.Process -----------------------------------------------------------
    def cpu_times(self):
        self.maybe("cpu_times")
        return CPU(*self.cpu[current().rank])

    def cpu_percent(self, proc, interval=None):
        self.maybe("cpu_percent")
        now, c = active().now, sum(self.cpu[current().rank][:2])
        old = self.last.get(id(proc))
        self.last[id(proc)] = (now, c)
        if old is None or now <= old[0]:
            return 0.0
        return 100.0 * (c - old[1]) / (now - old[0])

    def memory_full_info(self):
        self.maybe("memory_full_info")
        u = self.uss[current().rank]
        return MEM(u + 10, u)

    def io_counters(self):
        self.maybe("io_counters")
        return IO(*self.io[current().rank])

    def virtual_memory(self):
        self.maybe("virtual_memory")
        u = self.used(active().now)
        return VM(TOTAL, TOTAL - u, u)


class Tracer:
    """Stands for cProfile.Profile and pyinstrument.Profiler (only one real one can run per interpreter)."""

    def __init__(self, *a, **k):
        self.on = False
        self.span = [None, None]

    def enable(self, *a, **k):
        self.on = True
        self.span[0] = active().now

    def disable(self):
        self.on = False
        self.span[1] = active().now

    start, stop = enable, disable

    def __enter__(self):
        self.enable()
        return self

    def __exit__(self, *a):
        self.disable()

    def text(self):
        return f"{self.span[0]} {self.span[1]} {self.on} {current().rank}"

    def dump_stats(self, file):
        with open(file, "w") as f:
            f.write(self.text())

    def output_text(self, *a, **k):
        return self.text()


class P(harness.Prop):
    id = "C19"
    title = "Usage profiling stops with the code it profiles and reports exactly its interval"
    rule = (
        "a run = 1..4 ranks profiling nested and successive blocks (context manager, start/stop, a pipeline with profiling on, IOUsage, cProfile and pyinstrument wrappers) on a simulated machine "
        "whose counters change only by the work the harness does, with every interleaving of the sampling threads, process stalls, clock jumps, failing psutil calls, thread starts and "
        "file writes, and blocks that raise; figures, files, exceptions and threads are compared with the machine"
    )
    real = ("caput.util.profiler", "caput.pipeline (profiled runs)")
    stub = ("psutil figures (simulated machine)", "threads and clock (simulated)", "cProfile and pyinstrument engines", "mpi4py (simulated network)", "filesystem faults")
    quick_runs = 8000
    thorough_runs = 150000

    def load(self):
        from caput import pipeline
        from caput.pipeline import exceptions
        from caput.util import mpitools, profiler

        self.pr, self.mt, self.pipeline = profiler, mpitools, pipeline
        S = self.S = {}

        class Prof(pipeline.Task):
            def setup(self):
                S["do"](self, "setup")

            def next(self):
                if not S["do"](self, "next"):
                    raise exceptions.PipelineStopIteration

            def finish(self):
                S["do"](self, "finish")

        pipeline.local_tasks["C19Task"] = Prof

    def gen_work(self, rng):
        return {"cpu": rng.choice([0.0, 0.5, 2.0]), "sys": rng.choice([0.0, 0.25]), "wait": rng.choice([0.0, 0.125]), "io": [rng.choice([0, 0, 3, 4096]) for _ in range(6)],
                "uss": rng.choice([0, 0, 512, -256]), "dur": rng.choice([0.0, 0.0, 0.01, 0.3, 0.5, 1.0, 1.7, 4.0])}

    def generate(self, rng, i):
        n = rng.choice([1, 1, 2, 3, 4])
        kind = rng.choice(["blocks"] * 5 + ["pipe", "tracer"])
        if kind == "tracer" and rng.random() < 0.2:
            n = rng.choice([10, 11])
        ops = []
        comm = rng.choice([None, "world", "rev"])
        for _ in range(rng.randrange(1, 5)):
            ops.append({"api": rng.choice(["with", "with", "start", "off", "io"]), "reuse": rng.random() < 0.3, "label": rng.choice(["a", "b, c", 'q"u', ""]), "log": rng.random() < 0.5,
                        "work": [self.gen_work(rng) for _ in range(rng.randrange(0, 4))], "before": self.gen_work(rng), "fail": rng.random() < 0.2, "nest": rng.random() < 0.2,
                        "comm": comm, "path": rng.choice([None, None, "sub", "nodir"])})
        mood = rng.choice(["clean", "clean", "faults", "stall"])
        env = harness.gen_env(rng)
        env["tick_p"] = 0.0
        env["delay_p"] = 0.0
        if mood != "stall":
            env["stall_p"], env["max_stalls"] = 0.0, 0
        lv = [rng.choice([10, 20, 30, 40, 50]) * 10**9 for _ in range(rng.randrange(1, 24))]
        for k in range(len(lv)):
            if rng.random() < 0.7 and k:
                lv[k] = lv[k - 1]
        return {"n": n, "kind": kind, "ops": ops, "env": env, "levels": lv, "ps_fail": rng.choice([None, rng.randrange(1, 30)]) if mood == "faults" else None,
                "start_p": rng.choice([0.0, 0.3]) if mood == "faults" else 0.0, "err_p": rng.choice([0.0, 0.3]) if mood == "faults" else 0.0, "jump": rng.choice([0.0, 0.0, -3.0, 100.0, -1e6]),
                "engine": rng.choice(["cprofile", "pyinstrument"])}

    def directed(self):
        w = {"cpu": 1.0, "sys": 0.0, "wait": 0.0, "io": [1, 2, 3, 4, 5, 6], "uss": 10, "dur": 0.1}
        o = {"api": "with", "reuse": False, "label": "a", "log": True, "work": [w], "before": w, "fail": False, "nest": False, "comm": None, "path": None}
        b = {"n": 1, "kind": "blocks", "ops": [o], "env": dict(harness.QUIET), "levels": [10**10, 10**10, 2 * 10**10], "ps_fail": None, "start_p": 0.0, "err_p": 0.0, "jump": 0.0, "engine": "cprofile"}
        return [b, dict(b, ops=[dict(o, path="sub")]), dict(b, jump=-3.0), dict(b, kind="tracer", ops=[dict(o, path="sub")]), dict(b, kind="pipe", n=2), dict(b, ops=[dict(o, work=[], fail=True)]),
                dict(b, levels=[10**10] * 3 + [9 * 10**10] * 3, ops=[dict(o, work=[dict(w, dur=0.8)])])]

    # -- execution ----------------------------------------------------------------------
    def execute(self, program, ctx):
        import cProfile

        import psutil
        import pyinstrument

        p = copy.deepcopy(program)
        n = p["n"]
        d0 = os.path.realpath(ctx.dir())
        root = os.path.join(d0, "fs")
        os.makedirs(os.path.join(root, "sub"))
        m = Machine(p, n)
        st = {"jumped": False}

        def prepare(sim, world):
            F.attach({"root": root, "err_p": p["err_p"], "err_max": 1, "err_ops": ("create", "write", "close")})(sim, world)
            sim.threads_cfg = {"start_p": p["start_p"]}
            sim.thread_errors = []
            sim.clock_skew = {}

        PP = psutil.Process
        keep = {k: PP.__dict__[k] for k in ("cpu_times", "cpu_percent", "memory_full_info", "io_counters", "oneshot", "cpu_affinity") if k in PP.__dict__}
        keep2 = (psutil.virtual_memory, cProfile.Profile, pyinstrument.Profiler)
        PP.cpu_times = lambda s: m.cpu_times()
        PP.cpu_percent = lambda s, interval=None: m.cpu_percent(s, interval)
        PP.memory_full_info = lambda s: m.memory_full_info()
        PP.io_counters = lambda s: m.io_counters()
        PP.oneshot = lambda s: contextlib.nullcontext()
        PP.cpu_affinity = lambda s, cpus=None: [0, 1, 2]
        psutil.virtual_memory = m.virtual_memory
        cProfile.Profile = pyinstrument.Profiler = Tracer
        self.exact = not p["env"]["stall_p"]
        cwd = os.getcwd()
        os.chdir(root)
        try:
            main = {"blocks": self.blocks, "pipe": self.pipe, "tracer": self.tracer}[p["kind"]]
            run = ctx.simulate(n, lambda r: main(p, m, r, root, ctx), p["env"], prepare=prepare, finish=F.detach)
        finally:
            os.chdir(cwd)
            for k, v in keep.items():
                setattr(PP, k, v)
            psutil.virtual_memory, cProfile.Profile, pyinstrument.Profiler = keep2
        what = f"{p['kind']} on {n} ranks"
        faults = m.broken or run.sim.fs.errors or run.sim.faults.get("thread_start_failure")
        if run.outcome == "deadlock" and p["kind"] == "pipe" and faults and n > 1:
            ctx.probe("faulty_runs")
            return  # one process failed; the others wait for it (ended by the exception hook, C16)
        if run.outcome in ("budget", "deadlock"):
            raise Violation("not-ended", f"{what}: a thread never ends: {run.sim.detail}")
        ctx.require_clean(run, what)
        exp = {}
        for r in range(n):
            for path, rows in (run.results[r] or {}).items():
                if path in exp:
                    raise Violation("files", f"{what}: two ranks write {path}")
                exp[path] = rows
        found = {}
        for dp, dn, fn in os.walk(root):
            for x in fn:
                found[os.path.relpath(os.path.join(dp, x), root)] = os.path.join(dp, x)
        if faults:
            ctx.probe("faulty_runs")
            return
        if set(found) != set(exp):
            raise Violation("files", f"{what}: files {sorted(found)}, expected {sorted(exp)}")
        for path, rows in exp.items():
            if rows is None:
                continue
            with open(found[path], newline="") as f:
                got = list(csv.reader(f))
            if not got or got[0][0] != "task_name" or any(g[:1] == ["task_name"] for g in got[1:]):
                raise Violation("csv", f"{what}: {path} has no single header: {got[:3]}")
            if len(got) - 1 != len(rows):
                raise Violation("csv", f"{what}: {path} has {len(got) - 1} rows, expected {len(rows)}")
            for g, u in zip(got[1:], rows):
                row = dict(zip(got[0], g))
                if len(g) != len(got[0]):
                    raise Violation("csv", f"{what}: {path}: {len(g)} columns under a header of {len(got[0])}")
                want = {"task_name": u["task_name"], "time_s": u["time_s"], "cpu_times_user": u["cpu_times"]["user"], "cpu_times_system": u["cpu_times"]["system"],
                        "cpu_times_iowait": u["cpu_times"]["iowait"], "average_cpu_load_percent": u["cpu_percent"], "memory_change_uss": u["memory"],
                        "current_available_memory_bytes": u["available_memory"], "current_total_used_memory_bytes": u["used_memory"], "peak_used_memory_bytes": u["peak_memory"]}
                want.update({"disk_io_" + k: v for k, v in u["disk_io"].items()})
                bad = {k: (row.get(k), v) for k, v in want.items() if (row.get(k) != v if isinstance(v, str) else row.get(k) in (None, "") or abs(float(row[k]) - v) > 1e-6)}
                if bad:
                    raise Violation("csv", f"{what}: {path}: {bad} (recorded, reported)")
        ctx.probe("checked_runs")

    def sleep(self, d):
        if d:
            active().sleep(d)

    def jump(self, p):
        if p["jump"]:
            sk = active().clock_skew
            r = current().rank
            sk[r] = sk.get(r, 0.0) + p["jump"]
            active().fault("clock_jump")

    def comm(self, which, r, n):
        """(communicator, rank in it); collective."""
        if which is None:
            return None, r
        w = self.mt.MPI.COMM_WORLD
        return (w, r) if which == "world" else (w.Split(0, -r), n - 1 - r)

    def blocks(self, p, m, r, root, ctx):
        files = {}
        comms = {k: self.comm(k, r, p["n"]) for k in (None, "world", "rev")}
        old = None
        for o in p["ops"]:
            m.work(o["before"])
            self.sleep(o["before"]["dur"])
            comm, cr = comms[o["comm"]]
            d = {None: root, "sub": os.path.join(root, "sub"), "nodir": os.path.join(root, "no such")}[o["path"]]
            if o["api"] == "io":
                self.io_block(p, m, o)
                continue
            log = Log() if o["log"] else None
            kw = {"label": o["label"], "logger": log, "comm": comm, "use_profiler": o["api"] != "off"}
            if o["path"] is not None:
                kw["path"] = d if r % 2 else __import__("pathlib").Path(d)
            what = f"{o} on rank {r}"
            ready = m.broken, len(active().fs.errors)
            if old is not None and o["reuse"] and o["api"] != "off":
                pr, path = old
            else:
                try:
                    pr = self.pr.PSUtilProfiler(**kw)
                except ValueError:
                    if o["path"] == "nodir":
                        continue
                    raise
                except OSError:
                    if ready != (m.broken, len(active().fs.errors)):
                        continue
                    raise
                if o["path"] == "nodir":
                    raise Violation("path", f"{what}: a directory that does not exist is accepted")
                path = os.path.relpath(os.path.join(d, f"perf_{cr}.csv"), root)
                if o["api"] != "off":
                    files.setdefault(path, [])
                    old = pr, path
            u = self.block(p, m, o, pr, what, ctx, nested=o["nest"] and o["api"] != "off", files=files, comm=comm, cr=cr)
            if u is not None and path in files:
                files[path].append(u)
        return files

    def injected(self, m):
        sim = active()
        return (m.broken, len(sim.fs.errors), sim.faults.get("thread_start_failure", 0))

    def block(self, p, m, o, pr, what, ctx, nested, files, comm, cr):
        """Profile one block; -> the usage reported, or None."""
        sim = active()
        inj = self.injected(m)
        rk = current().rank
        t = {"call": sim.now, "comm": comm, "cr": cr}
        obj = Boom("the block's own")
        got = None
        threads0 = {x.tid for x in sim.threads if x.state != "done"}

        def body():
            t["in"] = sim.now
            t["cpu"], t["io"], t["uss"] = list(m.cpu[rk]), list(m.io[rk]), m.uss[rk]
            for k, w in enumerate(o["work"]):
                m.work(w)
                self.sleep(w["dur"])
                if k == 0:
                    self.jump(p)
                if k == 0 and nested:
                    q = self.pr.PSUtilProfiler(label="inner", comm=t["comm"])
                    path = f"perf_{t['cr']}.csv"
                    files.setdefault(path, [])
                    u = self.block(p, m, dict(o, api="with", fail=False, work=o["work"][:1]), q, what + " (inner)", ctx, False, files, comm, cr)
                    if u is not None:
                        files[path].append(u)
            t["out"] = sim.now
            t["cpu2"], t["io2"], t["uss2"] = list(m.cpu[rk]), list(m.io[rk]), m.uss[rk]
            if o["fail"]:
                raise obj

        def clean():
            return self.injected(m) == inj

        try:
            if o["api"] in ("with", "off"):
                with pr:
                    body()
            else:
                pr.start()
                try:
                    body()
                finally:
                    pr.stop()
        except Exception as e:  # noqa: BLE001
            got = e
        t["ret"] = sim.now
        left = [x.name for x in sim.threads if x.rank == rk and x.state != "done" and x.tid not in threads0]
        if left:
            raise Violation("thread-left", f"{what}: threads {left} still run after the profiled block (raised {got!r})")
        if clean():
            if o["fail"] and got is not obj:
                raise Violation("exception-lost", f"{what}: the block's exception became {got!r}")
            if not o["fail"] and got is not None:
                raise Violation("exception", f"{what}: {type(got).__name__}: {got}")
            if "in" not in t:
                raise Violation("not-run", f"{what}: the block was not run")
        else:
            ctx.probe("faulty_blocks")
            if got is None and "out" not in t:
                raise Violation("not-run", f"{what}: the block was not run and nothing was raised")
            if o["fail"] and "out" in t and got is None:
                raise Violation("exception-lost", f"{what}: the block's exception was lost")
            return None
        if o["api"] == "off":
            if pr.usage:
                raise Violation("off", f"{what}: reports {pr.usage} though it is off")
            return None
        u = pr.usage
        self.judge(p, m, o, u, t, what, ctx)
        return u

    def judge(self, p, m, o, u, t, what, ctx):
        eq = lambda a, b: abs(float(a) - float(b)) < 1e-6  # noqa: E731
        lo, hi = t["out"] - t["in"], t["ret"] - t["call"]
        if self.exact:
            hi = lo
        if not lo - 1e-3 <= u["time_s"] <= hi + 1e-3:
            raise Violation("time", f"{what}: reports {u['time_s']} s for a block of {lo} s")
        if t["ret"] - t["out"] > 1.0 and self.exact:
            raise Violation("slow", f"{what}: leaving the block takes {t['ret'] - t['out']} s")
        d = dict(zip(CPU._fields, (b - a for a, b in zip(t["cpu"], t["cpu2"]))))
        bad = {k: (u["cpu_times"].get(k), v) for k, v in d.items() if not eq(u["cpu_times"].get(k, -9), v)}
        d = dict(zip(IO._fields, (b - a for a, b in zip(t["io"], t["io2"]))))
        bad.update({k: (u["disk_io"].get(k), v) for k, v in d.items() if not eq(u["disk_io"].get(k, -9), v)})
        if not eq(u["memory"], t["uss2"] - t["uss"]):
            bad["memory"] = (u["memory"], t["uss2"] - t["uss"])
        if self.exact:
            c = sum(t["cpu2"][:2]) - sum(t["cpu"][:2])
            pc = 100.0 * c / lo if lo > 0 else None
            if pc is not None and abs(u["cpu_percent"] - pc) > 1e-3 * pc + 1.0 * (lo < 0.05) * pc + 1e-3:
                bad["cpu_percent"] = (u["cpu_percent"], pc)
            end = m.used(t["ret"])
            if self.used_const(m, t["out"], t["ret"]) and (u["used_memory"] != end or u["available_memory"] != TOTAL - end):
                bad["used_memory"] = (u["used_memory"], end)
        if bad:
            raise Violation("figures", f"{what}: (reported, real) {bad}")
        if u["task_name"] != (o["label"] if "(inner)" not in what else "inner") and not o["reuse"]:
            raise Violation("label", f"{what}: reported as {u['task_name']!r}")
        # peak memory
        a, b = t["call"], t["ret"]
        levels = [m.used(a), m.used(b)]
        k = int(a / SEG)
        while (k + 1) * SEG <= b:
            levels.append(m.used((k + 1) * SEG))
            k += 1
        if u["peak_memory"] > max(levels):
            raise Violation("peak", f"{what}: peak {u['peak_memory']} above the highest use {max(levels)}")
        if u["peak_memory"] < u["used_memory"]:
            raise Violation("peak", f"{what}: peak {u['peak_memory']} is less than the use at the end {u['used_memory']}")
        if self.exact:
            held = 0
            k = int(t["in"] / SEG) + 1
            while (k + 4) * SEG <= t["out"]:
                held = max(held, min(m.used((k + x) * SEG) for x in range(4)))
                k += 1
            if u["peak_memory"] < held:
                raise Violation("peak", f"{what}: peak {u['peak_memory']}, though {held} was in use for a second")
        ctx.probe("judged_blocks")

    def used_const(self, m, a, b):
        return b - a < 1e-3 and m.used(a) == m.used(b)

    def io_block(self, p, m, o):
        r = current().rank
        log = Log() if o["log"] else None
        u = self.pr.IOUsage(log)
        b = m.broken
        before = list(m.io[r])
        obj = Boom("io")
        got = None
        try:
            with u:
                for w in o["work"]:
                    m.work(w)
                    self.sleep(w["dur"])
                if o["fail"]:
                    raise obj
        except Exception as e:  # noqa: BLE001
            got = e
        if m.broken != b:
            return
        if (got is not None) != o["fail"] or (o["fail"] and got is not obj):
            raise Violation("exception-lost", f"IOUsage {o}: {got!r}")
        exp = {k: y - x for k, x, y in zip(IO._fields, before, m.io[r])}
        if u.usage != exp:
            raise Violation("figures", f"IOUsage reports {u.usage}, expected {exp}")

    # -- in a pipeline -------------------------------------------------------------------
    def pipe(self, p, m, r, root, ctx):
        todo = {r: {}}
        S = self.S
        inj = self.injected(m)
        boom = Boom("task")
        S.setdefault("state", {})
        if r == 0:
            S["state"] = {}
        total = {"cpu": 0.0}

        def do(task, stage):
            rr = current().rank
            t = S["per"][rr]
            return t(task, stage)

        steps = []

        def mine(task, stage):
            k = int(str(task.tag)) if hasattr(task, "tag") else 0
            left = counts.setdefault(id(task), len(p["ops"]))
            o = p["ops"][k % len(p["ops"])]
            if stage == "next":
                if left == 0:
                    return False
                counts[id(task)] = left - 1
            for w in o["work"]:
                m.work(w)
                total["cpu"] += w["cpu"]
                self.sleep(w["dur"])
            steps.append(stage)
            if stage == "next" and o["fail"]:
                raise boom
            return True

        counts = {}
        S.setdefault("per", {})
        S["per"][r] = mine
        S["do"] = do
        man = self.pipeline.Manager.from_yaml_str(yaml.safe_dump({"pipeline": {"tasks": [{"type": "C19Task"} for _ in range(2)]}}), psutil_profiling=True)
        got = None
        threads0 = {x.tid for x in active().threads if x.state != "done"}
        try:
            man.run()
        except Exception as e:  # noqa: BLE001
            got = e
        left = [x.name for x in active().threads if x.rank == current().rank and x.state != "done" and x.tid not in threads0]
        if left:
            raise Violation("thread-left", f"pipeline: threads {left} still run (raised {got!r})")
        if self.injected(m) != inj:
            if got is None and not steps:
                raise Violation("not-run", "pipeline: nothing ran and nothing was raised")
            return {}
        fail = p["ops"][0]["fail"]
        if fail and not (got is boom or boom in (got.__context__, got.__cause__) if got is not None else False):
            raise Violation("exception-lost", f"pipeline: {got!r}")
        if not fail and got is not None:
            raise Violation("exception", f"pipeline: {type(got).__name__}: {got}")
        f = os.path.join(root, f"perf_{r}.csv")
        if not F.R["exists"](f):
            raise Violation("files", f"pipeline: no {f}")
        with F.R["open"](f, newline="") as fh:
            rows = list(csv.DictReader(fh))
        s = sum(float(x["cpu_times_user"]) for x in rows)
        if abs(s - total["cpu"]) > 1e-6:
            raise Violation("figures", f"pipeline: rows add up to {s} s of CPU, the tasks used {total['cpu']}")
        ctx.probe("profiled_pipelines")
        return {f"perf_{r}.csv": None}

    # -- cProfile and pyinstrument -----------------------------------------------------------
    def tracer(self, p, m, r, root, ctx):
        files = {}
        sim = active()
        n = p["n"]
        for o in p["ops"]:
            comm, cr = self.comm(o["comm"], r, n)
            on = o["api"] != "off"
            kw = {"profile": on, "profiler": p["engine"], "comm": comm}
            d = root
            if o["path"] == "sub":
                d = os.path.join(root, "sub")
                kw["path"] = d
            name = os.path.join(d, f"profile_{cr:0{len(str(n))}}." + {"cprofile": "prof", "pyinstrument": "txt"}[p["engine"]])
            errs = len(sim.fs.errors)
            obj, got = Boom("x"), None
            t = {}
            try:
                with self.pr.Profiler(**kw):
                    t["in"] = sim.now
                    for w in o["work"]:
                        self.sleep(w["dur"])
                    t["out"] = sim.now
                    if o["fail"]:
                        raise obj
            except Exception as e:  # noqa: BLE001
                got = e
            if len(sim.fs.errors) != errs:
                continue
            if (got is not None) != o["fail"] or (o["fail"] and got is not obj):
                raise Violation("exception-lost", f"{p['engine']} {o}: {got!r}")
            if not on:
                continue
            if not F.R["exists"](name):
                raise Violation("files", f"{p['engine']} {o} rank {r}: no {os.path.relpath(name, root)}; there are {[x for _, _, y in os.walk(root) for x in y]}")
            with F.R["open"](name) as f:
                a, b, running, who = f.read().split()
            if running != "False" or int(who) != r or (self.exact and (abs(float(a) - t["in"]) > 1e-3 or abs(float(b) - t["out"]) > 1e-3)) or float(a) > t["in"] or float(b) < t["out"]:
                raise Violation("interval", f"{p['engine']} {o} rank {r}: profile from {a} to {b} (still running: {running}, rank {who}), block {t}")
            files[os.path.relpath(name, root)] = None
            ctx.probe("traced_blocks")
        return files


class Log:
    def __getattr__(self, k):
        return lambda *a, **kw: None


PROP = P()
