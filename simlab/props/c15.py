"""C15: redistributions and allocation checks on simulated nodes with too little, enough or unreadable memory."""

import builtins
import io
import os
import re

import numpy as np

from .. import harness, models
from ..sched import Violation, active, current

R = models


class MemSeam:
    """What the operating system says about memory, per simulated rank."""

    def __init__(self, world, figures):
        self.world = world
        self.figures = figures  # rank -> (mode, available)
        self.reads = 0

    def mode(self):
        return self.figures[current().rank]

    def open(self, path, *a, **k):
        mode, avail = self.mode()
        self.reads += 1
        if re.fullmatch(r"/proc/(\d+|self)/cgroup", path):
            if mode == "none":
                raise FileNotFoundError(2, "No such file or directory", path)
            if mode == "denied":
                raise PermissionError(13, "Permission denied (injected)", path)
            if mode in ("v1", "v1broken"):
                return io.StringIO("12:cpuset:/\n5:memory:/slurm/uid_1/job_2\n1:name=systemd:/x\n")
            if mode == "v1root":
                return io.StringIO("12:cpuset:/\n5:memory:/\n1:name=systemd:/x\n")
            return io.StringIO("0::/user.slice/session-1.scope\n")
        if "memory.stat" in path:
            return io.StringIO(f"cache 12\nrss 34\nhierarchical_memory_limit {avail + 5000}\ntotal_cache 9\n")
        if "memory.usage_in_bytes" in path:
            if mode == "v1broken":
                raise OSError(5, "Input/output error (injected)", path)
            return io.StringIO("5000\n")
        raise FileNotFoundError(2, "No such file or directory", path)

    def virtual_memory(self):
        self.reads += 1
        mode, avail = self.mode()
        if mode in ("v1", "v1broken", "denied"):
            avail = 1 << 60  # the machine has plenty; the control group does not

        class VM:
            available = avail
            total = 1 << 61
            free = avail

        return VM()


class P(harness.Prop):
    id = "C15"
    title = "A shortage of memory on any process is refused by all processes alike"
    rule = (
        "a run = 1 to 4 redistributions or allocation checks on 1..6 ranks placed on 1..3 nodes whose memory figures change "
        "between steps (plenty, short on some nodes, different readings on one node, unreadable); outcome and data compared on all ranks"
    )
    real = ("caput.mpiarray", "caput.util.mpitools")
    stub = ("mpi4py (simulated network)", "psutil and the control-group files (simulated figures)")
    quick_runs = 10000
    thorough_runs = 400000

    def load(self):
        from caput import mpiarray
        from caput.util import mpitools

        self.ma = mpiarray
        self.mt = mpitools

    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 4, 4, 5, 6])
        nodes = rng.choice([1, 2, 2, 3])
        node_of = sorted(rng.randrange(nodes) for _ in range(n)) if rng.random() < 0.6 else [rng.randrange(nodes) for _ in range(n)]
        shape = [max(1, x) for x in R.gen_shape(rng, n, nmin=2, nmax=3, zero_p=0)]
        ops = []
        for _ in range(rng.randrange(1, 5)):
            fig = []
            how = rng.choice(["plenty", "plenty", "short", "short", "mixed", "unreadable"])
            for nd in range(nodes):
                fig.append([rng.choice(["none", "v2", "v1", "v1root"]), rng.choice(["plenty", "short"]) if how in ("short", "mixed") else "plenty"])
            per_rank = {}
            if how == "mixed":
                per_rank = {str(rng.randrange(n)): rng.choice(["plenty", "short"]) for _ in range(2)}
            elif how == "unreadable":
                per_rank = {str(rng.randrange(n)): rng.choice(["denied", "v1broken"]) for _ in range(rng.randrange(1, 3))}
            k = rng.choice(["redist", "redist", "redist", "can", "cpu"])
            if k == "redist":
                ops.append([k, fig, per_rank, rng.randrange(len(shape))])
            elif k == "can":
                ops.append([k, fig, per_rank, rng.choice(["shared", "process", "global", "default"]), rng.choice([0.5, 3.0]), rng.randrange(2)])
            else:
                ops.append([k, fig, {}, rng.choice([1, 2, 8, 64, None])])
        return {"n": n, "node_of": node_of, "shape": shape, "axis": rng.randrange(len(shape)), "dtype": rng.choice(["f8", "f4", "c16", "i2"]),
                "ops": ops, "comm": rng.choice(["world", "world", "split"]), "env": harness.gen_env(rng)}

    def directed(self):
        env = dict(harness.QUIET)
        base = {"n": 4, "node_of": [0, 0, 1, 1], "shape": [8, 8], "axis": 0, "dtype": "f8", "comm": "world", "env": env}
        short = [["v2", "plenty"], ["v2", "short"]]
        ok = [["v2", "plenty"], ["v2", "plenty"]]
        return [
            dict(base, ops=[["redist", short, {}, 1], ["redist", ok, {}, 1]]),
            dict(base, ops=[["redist", ok, {"1": "denied"}, 1]]),
            dict(base, node_of=[0, 0, 0, 0], ops=[["redist", ok, {"1": "short"}, 1]]),
            dict(base, ops=[["cpu", ok, {}, 8]]),
        ]

    def execute(self, program, ctx):
        n = program["n"]
        node_of = program["node_of"]
        g = R.make(program["shape"], program["dtype"])
        if program["axis"] >= g.ndim or any(o[0] == "redist" and o[3] >= g.ndim for o in program["ops"]):
            return
        MPI = self.mt.MPI
        split = program["comm"] == "split"
        seam = MemSeam(None, {})
        outcomes = {}
        import psutil

        def groups(wr):
            return [r for r in range(n) if not split or r % 2 == wr % 2]

        def need(wr, axis):
            """Bytes the ranks of this node and communicator hold."""
            members = groups(wr)
            return sum(R.local_part(g, axis, len(members), members.index(r)).nbytes for r in members if node_of[r] == node_of[wr])

        def rank_main(wr):
            world = MPI.COMM_WORLD
            comm = world.Split(wr % 2, wr) if split else world
            size, rank = comm.Get_size(), comm.Get_rank()
            arr = self.ma.MPIArray.wrap(R.local_part(g, program["axis"], size, rank).copy(), program["axis"], comm=comm)
            axis = program["axis"]
            for q, op in enumerate(program["ops"]):
                world.Barrier()
                what = f"step {q} {op[0]} {op[3:]} rank {rank}/{size} node {node_of[wr]}"
                mode, level = op[1][node_of[wr] % len(op[1])]
                level = op[2].get(str(wr), level)
                if level in ("denied", "v1broken"):
                    mode, level = level, "plenty"
                have = need(wr, axis)
                if op[0] == "redist":
                    # far less than the target array alone, or far more than everything needed
                    avail = have // 2 if level == "short" else 10 * have + 1000
                    seam.figures[wr] = (mode, avail)
                    keep = arr.local_array.copy()
                    src = arr
                    try:
                        new = arr.redistribute(op[3])
                    except MemoryError:
                        outcomes.setdefault((q, wr % 2 if split else 0), {})[wr] = "refused"
                        R.check_dist(src, g, axis, size, rank, what + " after refusal", comm)
                        if not R.same(src.local_array, keep):
                            raise Violation("source-changed", f"{what}: the source changed")
                        continue
                    outcomes.setdefault((q, wr % 2 if split else 0), {})[wr] = "done"
                    R.check_dist(new, g, op[3], size, rank, what, comm)
                    arr, axis = new, op[3]
                elif op[0] == "can":
                    unit = 1000 * (1 + node_of[wr])
                    avail = unit
                    seam.figures[wr] = (mode, avail)
                    self.check_can(op, comm, wr, node_of, groups(wr), unit, level, mode, what, [
                        op[2].get(str(r), "") in ("denied", "v1broken") for r in range(n)])
                else:
                    seam.figures[wr] = ("none", 1)
                    old = self.cpus[wr] = op[3]
                    got = self.mt.cpu_count() if comm is world and q % 2 else self.mt.cpu_count(comm)
                    peers = sum(1 for r in groups(wr) if node_of[r] == node_of[wr])
                    exp = None if old is None else max(1, old // peers)
                    if got != exp:
                        raise Violation("wrong-share", f"{what}: {got} CPUs for each of {peers} processes on a node of {old}, expected {exp}")
            return True

        self.cpus = {}
        real_open, real_vm, real_cc = builtins.open, psutil.virtual_memory, os.cpu_count

        def fopen(path, *a, **k):
            if active() is not None and isinstance(path, (str, os.PathLike)):
                p = os.fspath(path)
                if isinstance(p, str) and (p.startswith("/sys/fs/cgroup") or re.fullmatch(r"/proc/[^/]+/cgroup", p)):
                    active().step()
                    return seam.open(p, *a, **k)
            return real_open(path, *a, **k)

        def prepare(sim, world):
            seam.world = world
            builtins.open = fopen
            io.open = fopen
            psutil.virtual_memory = lambda: seam.virtual_memory() if active() is not None else real_vm()
            os.cpu_count = lambda: self.cpus.get(current().rank) if active() is not None else real_cc()

        def finish(sim, world):
            builtins.open = real_open
            io.open = real_open
            psutil.virtual_memory = real_vm
            os.cpu_count = real_cc

        run = ctx.simulate(n, rank_main, program["env"], node_of=node_of, prepare=prepare, finish=finish)
        for (q, grp), d in outcomes.items():
            if len(set(d.values())) > 1:
                op = program["ops"][q]
                raise Violation("disagreement", f"step {q} {op}: {d} on nodes {node_of} (run outcome {run.outcome} {run.sim.detail})")
        ctx.require_clean(run, "memory checks:")
        harness.require_no_leftovers(run)
        # judged on the clear cases only
        for (q, grp), d in outcomes.items():
            op = program["ops"][q]
            lev = {}
            for r in d:
                m, level = op[1][node_of[r] % len(op[1])]
                lev[r] = op[2].get(str(r), level)
            if set(lev.values()) == {"plenty"} or set(lev.values()) <= {"plenty", "denied", "v1broken"}:
                if "refused" in d.values():
                    raise Violation("false-refusal", f"step {q} {op}: refused with plenty of memory on every rank")
            short_nodes = {nd for nd in set(node_of) if all(lev[r] == "short" for r in d if node_of[r] == nd) and any(node_of[r] == nd for r in d)}
            moved = run_axis(program, outcomes, q, grp) != op[3] and len(d) > 1
            if short_nodes and moved and "done" in d.values():
                # a node that holds nothing needs nothing
                ax = run_axis(program, outcomes, q, grp)
                hold = {nd: sum(R.local_part(g, ax, len(d), sorted(d).index(r)).nbytes for r in d if node_of[r] == nd) for nd in short_nodes}
                if any(v > 8 for v in hold.values()):
                    raise Violation("not-refused", f"step {q} {op}: done although nodes {sorted(short_nodes)} hold {hold} bytes and are short of memory")
            ctx.probe("refused" if "refused" in d.values() else "done")
        for op in program["ops"]:
            ctx.probe("op_" + op[0])

    def check_can(self, op, comm, wr, node_of, members, unit, level, mode, what, unread):
        scope, factor, default = op[3], op[4], op[5]
        peers = [r for r in members if node_of[r] == node_of[wr]]
        blind = any(unread[r] for r in members)
        if scope in ("shared", "default"):
            nbytes = int(unit * factor)
            exp = factor < 1
        elif scope == "process":
            # equal amounts, or nearly everything on one process
            share = 1 / len(peers)
            if default and len(peers) > 1:
                big = peers[sum(peers) % len(peers)]
                share = 0.9 if wr == big else 0.1 / (len(peers) - 1)
            nbytes = int(unit * factor * share)
            exp = factor < 1
        else:
            tot = sum(1000 * (1 + node_of[r]) / sum(1 for x in members if node_of[x] == node_of[r]) for r in members)
            nbytes = int(tot * factor)
            exp = factor < 1
        kw = {} if scope == "default" else {"scope": scope}
        got = bool(self.mt.can_allocate(nbytes, comm=comm, **kw))
        if mode in ("denied", "v1broken") and scope != "global":
            exp = True  # cannot be checked: allowed, with a warning
        if blind and scope == "global":
            exp = True if exp else got
        if got != exp:
            raise Violation("wrong-answer", f"{what}: can_allocate({nbytes}) gave {got}, node has {unit}, {len(peers)} processes share it")

    def describe(self, program):
        return {k: program[k] for k in ("n", "node_of", "shape", "axis", "ops", "comm")}


def run_axis(program, outcomes, q, grp):
    ax = program["axis"]
    for k in range(q):
        op = program["ops"][k]
        if op[0] == "redist" and set(outcomes.get((k, grp), {}).values()) == {"done"}:
            ax = op[3]
    return ax


PROP = P()
