"""C09: sequences of the work-splitting and parallel helpers against plain serial code."""

import os

import numpy as np

from .. import fs as F
from .. import harness, models
from ..sched import Violation

R = models


class P(harness.Prop):
    id = "C09"
    title = "Work splitting and parallel helpers cover every item exactly once"
    rule = (
        "a run = 1 to 6 calls of the splitting, mapping, gathering, transposing, row-writing and activation helpers on "
        "1..7 simulated ranks (the whole world or half of it); the calls of all ranks together compared with serial code"
    )
    real = ("caput.util.mpitools", "caput.util.arraytools", "h5py")
    stub = ("mpi4py (simulated network)", "clock", "file descriptors and record locks (simulated, real bytes underneath)")
    quick_runs = 12000
    thorough_runs = 1000000

    def load(self):
        from caput.util import arraytools, mpitools

        self.mt = mpitools
        self.at = arraytools

    # -- programs -------------------------------------------------------------
    def gen_op(self, rng, n, size, comm):
        k = rng.choice(["split", "part", "part", "map", "map", "map", "gather", "gather", "transpose", "transpose", "rows", "active", "basic"])
        L = rng.choice([0, 1, 2, n - 1, n, n + 1, 2 * n, 3 * n - 1, rng.randrange(0, 25)])
        if k == "split":
            return [k, L]
        if k == "part":
            return [k, L, rng.choice(["con", "alt", "rand", "rand", "default", "range", "range_alt"])]
        if k == "map":
            return [k, L, rng.choice([None, None, rng.randrange(8)]), rng.choice(["con", "alt", "rand"]),
                    rng.choice(["num", "str", "arr", "none", "list"])]
        if k == "gather":
            shape = R.gen_shape(rng, n, nmin=1, nmax=3, zero_p=0)
            return [k, shape, rng.randrange(len(shape)), rng.choice(R.PLAIN), rng.randrange(8),
                    rng.choice(["C", "F", "stride"]), rng.randrange(3)]
        if k == "transpose":
            shape = R.gen_shape(rng, n, nmin=2, nmax=4, zero_p=0.1)
            return [k, shape, rng.choice(R.PLAIN), rng.choice([0, 0, 1, 2]), rng.randrange(2), rng.choice(["C", "F"])]
        if k == "rows":
            shape = [max(1, x) for x in R.gen_shape(rng, n, nmin=1, nmax=3, zero_p=0)]
            return [k, shape, rng.choice(R.PLAIN), rng.randrange(2), rng.choice(["C", "F"])]
        if k == "basic":
            return [k, rng.randrange(8), rng.choice(["SUM", "MAX", "MIN", None])]
        m = rng.randrange(1, n + 1)
        return ["active", sorted(rng.sample(range(n), m)), rng.randrange(2)]

    def generate(self, rng, i):
        n = R.gen_n(rng)
        comm = rng.choice(["world", "world", "default", "split"])
        ops = [self.gen_op(rng, n, n, comm) for _ in range(rng.randrange(1, 7))]
        return {"n": n, "comm": comm, "ops": ops, "env": harness.gen_env(rng),
                "short": rng.choice([0.0] * 4 + [0.3]) if ops[-1][0] == "rows" else 0.0}

    def directed(self):
        env = dict(harness.QUIET)
        out = []
        for n in (1, 3):
            out.append({"n": n, "comm": "world", "env": env, "short": 0.0, "ops": [
                ["gather", [5, 2], 0, "f8", 0, "C", 1], ["part", 7, "rand"], ["map", 7, None, "rand", "num"],
                ["transpose", [4, 3], "f8", 0, 1, "C"], ["rows", [5, 2], "f8", 0, "C"]]})
        return out

    # -- execution ------------------------------------------------------------
    def execute(self, program, ctx):
        n = program["n"]
        mt = self.mt
        MPI = mt.MPI
        ops = program["ops"]
        split = program["comm"] == "split"
        calls = {}  # (op, group) -> items passed to the mapped function, in call order
        parts = {}  # (op, group) -> {rank: result}
        files = []
        root = None
        prepare = finish = None
        if any(o[0] == "rows" for o in ops):
            root = ctx.dir()
            prepare, finish = F.attach({"root": root, "short_p": program["short"]}), F.detach

        def rank_main(wr):
            world = MPI.COMM_WORLD
            comm = world.Split(wr % 2, wr) if split else world
            kw = {} if program["comm"] == "default" else {"comm": comm}
            size, rank = comm.Get_size(), comm.Get_rank()
            grp = wr % 2 if split else 0
            for q, op in enumerate(ops):
                what = f"step {q} {op}, rank {rank}/{size}"
                k = op[0]
                if k == "split":
                    self.do_split(op, kw, size, rank, what)
                elif k == "part":
                    items = [f"i{j}" for j in range(op[1])]
                    if op[2] == "default":
                        got = mt.partition_list_mpi(items, **kw)
                    elif op[2] in ("range", "range_alt"):
                        a = {"method": "alt"} if op[2] == "range_alt" else {}
                        got = [f"i{(j - 2) // 3}" for j in mt.mpirange(2, 2 + 3 * op[1], 3, **a, **kw)]
                    else:
                        got = mt.partition_list_mpi(items, method=op[2], **kw)
                    parts.setdefault((q, grp), {})[rank] = list(got)
                elif k == "map":
                    self.do_map(q, op, kw, size, rank, what, calls.setdefault((q, grp), []))
                elif k == "gather":
                    self.do_gather(op, kw, size, rank, what)
                elif k == "transpose":
                    self.do_transpose(op, kw, size, rank, what)
                elif k == "rows":
                    g = R.make(op[1], op[2], q)
                    loc = R.local_part(g, 0, size, rank).copy(order=op[4])
                    name = os.path.join(root, f"rows{grp}_{q if op[3] else 0}.h5")
                    dset = f"d{q}"
                    if rank == 0:
                        files.append((name, dset, g))
                    mt.parallel_rows_write_hdf5(name, dset, loc, tuple(op[1]), **kw)
                    loc[...] = 0
                    # (the helper does not synchronise: the next write to the same file must not overtake)
                    mt.barrier(**kw)
                elif k == "basic":
                    r = op[1] % size
                    v = mt.bcast(("from", rank), root=r, **kw)
                    if tuple(v) != ("from", r):
                        raise Violation("wrong-data", f"{what}: bcast gave {v}")
                    x = (rank * 7) % 5 + 1
                    allx = [(j * 7) % 5 + 1 for j in range(size)]
                    s = mt.allreduce(x, **({} if op[2] is None else {"op": getattr(MPI, op[2])}), **kw)
                    exp = {"SUM": sum, None: sum, "MAX": max, "MIN": min}[op[2]](allx)
                    if s != exp:
                        raise Violation("wrong-data", f"{what}: allreduce gave {s}, expected {exp}")
                elif k == "active":
                    self.do_active(q, op, n, wr, what, ctx)
            return True

        run = ctx.simulate(n, rank_main, program["env"], prepare=prepare, finish=finish)
        if run.sim.faults.get("short_write"):
            # a write cut short must not pass silently
            if not any(e is not None for e in run.real_excs()) and run.outcome == "done":
                self.check_files(files, "after a short write reported as complete:")
            ctx.probe("short_write_reported")
            return
        ctx.require_clean(run, "helpers:")
        harness.require_no_leftovers(run)
        self.check_files(files, "")
        for (q, grp), d in parts.items():
            size = len(d)
            L = ops[q][1]
            allitems = [x for r in range(size) for x in d[r]]
            want = [f"i{j}" for j in range(L)]
            if sorted(allitems) != sorted(want):
                raise Violation("coverage", f"step {q} {ops[q]} over {size} ranks: the parts hold {sorted(allitems)}, the list {sorted(want)}")
            lens = [len(d[r]) for r in range(size)]
            if max(lens) - min(lens) > 1:
                raise Violation("balance", f"step {q} {ops[q]}: part sizes {lens}")
            if ops[q][2] in ("con", "default", "range") and allitems != want:
                raise Violation("order", f"step {q} {ops[q]}: contiguous parts are {d}")
            if ops[q][2] in ("alt", "range_alt") and any(d[r] != want[r::size] for r in range(size)):
                raise Violation("order", f"step {q} {ops[q]}: alternating parts are {d}")
        for (q, grp), c in calls.items():
            want = list(range(ops[q][1]))
            if sorted(c) != want:
                raise Violation("coverage", f"step {q} {ops[q]}: function called for {sorted(c)}, the list is {want}")
        for op in ops:
            ctx.probe("op_" + op[0])

    def check_files(self, files, what):
        import h5py

        for name, dset, g in files:
            with h5py.File(name, "r") as f:
                if dset not in f:
                    raise Violation("lost-data", f"{what} dataset {dset} missing from {os.path.basename(name)}")
                a = f[dset][:]
            if not R.same(a, g):
                raise Violation("wrong-data", f"{what} rows in {os.path.basename(name)}/{dset}: {R.describe_diff(a, g)}")

    def do_split(self, op, kw, size, rank, what):
        L = op[1]
        al = np.asarray(self.mt.split_all(L, **kw))
        lo = np.asarray(self.mt.split_local(L, **kw))
        exp = np.array([R.share(L, size, r) for r in range(size)]).T
        if al.shape != (3, size) or not np.array_equal(al, exp):
            raise Violation("wrong-split", f"{what}: split_all gives {al.tolist()}, expected {exp.tolist()}")
        if not np.array_equal(lo, exp[:, rank]):
            raise Violation("wrong-split", f"{what}: split_local gives {lo.tolist()}, expected {exp[:, rank].tolist()}")

    def do_map(self, q, op, kw, size, rank, what, calls):
        _, L, root, method, kind = op
        if root is not None:
            root %= size

        def val(j):
            return {"num": j * 3.5, "str": f"v{j}", "none": None, "list": [j, [j]], "arr": np.arange(j % 4) + j}[kind]

        def func(item):
            calls.append(item)
            return val(item)

        glist = list(range(L))
        a = {} if root is None and L % 2 else {"root": root}
        if method != "con" or L % 2 == 0:
            a["method"] = method
        got = self.mt.parallel_map(func, glist, **a, **kw)
        if glist != list(range(L)):
            raise Violation("mutated", f"{what}: the list passed in was changed")
        if root is not None and rank != root:
            if got is not None:
                raise Violation("wrong-data", f"{what}: a process that is not the root got {got}")
            return
        exp = [val(j) for j in range(L)]
        ok = isinstance(got, list) and len(got) == L and all(
            np.array_equal(x, y) if kind == "arr" else x == y for x, y in zip(got, exp))
        if not ok:
            raise Violation("wrong-data", f"{what}: map gave {got}, expected {exp}")

    def do_gather(self, op, kw, size, rank, what):
        _, shape, axis, dt, root, layout, off = op
        root %= size
        g = R.make(shape, dt)
        full = list(shape)
        full[axis] += off
        loc = R.local_part(g, axis, size, rank)
        if layout == "stride":
            big = np.zeros([2 * x for x in loc.shape], loc.dtype)
            sl = tuple(slice(None, None, 2) for _ in loc.shape)
            big[sl] = loc
            loc = big[sl]
        else:
            loc = loc.copy(order=layout)
        start = [0] * len(shape)
        start[axis] = off + R.share(shape[axis], size, rank)[1]
        target = np.full(full, 0, dtype=g.dtype) if rank == root else (None if off else np.zeros(0, g.dtype))
        keep = loc.copy()
        self.mt.gather_local(target, loc, tuple(start), root=root, **kw)
        if not R.same(loc, keep):
            raise Violation("mutated", f"{what}: the local array changed")
        loc[...] = 0  # the call has returned: the buffer is the caller's again
        if rank == root:
            exp = np.zeros(full, g.dtype)
            sl = [slice(None)] * len(shape)
            sl[axis] = slice(off, None)
            exp[tuple(sl)] = g
            if not R.same(target, exp):
                raise Violation("wrong-data", f"{what}: {R.describe_diff(target, exp)}")

    def do_transpose(self, op, kw, size, rank, what):
        _, shape, dt, trim, aslist, layout = op
        full = list(shape)
        full[-1] += trim
        g = R.make(full, dt)
        loc = R.local_part(g, 0, size, rank).copy(order=layout)
        keep = loc.copy()
        got = self.mt.transpose_blocks(loc, list(shape) if aslist else tuple(shape), **kw)
        exp = R.local_part(g[..., : shape[-1]], len(shape) - 1, size, rank)
        if not R.same(got, exp):
            raise Violation("wrong-data", f"{what}: {R.describe_diff(got, exp)}")
        if not R.same(loc, keep):
            raise Violation("mutated", f"{what}: the input changed")
        loc[...] = 0
        if got.size and np.shares_memory(got, loc):
            raise Violation("mutated", f"{what}: the result shares memory with the input")

    def do_active(self, q, op, n, wr, what, ctx):
        """active(): the others wait until rank 0 closes."""
        _, aprocs, wait = op
        mt = self.mt
        if wait and 0 in aprocs:
            c = mt.active(aprocs)
            if wr in aprocs:
                if c.Get_size() != len(aprocs) or c.Get_rank() != aprocs.index(wr):
                    raise Violation("wrong-data", f"{what}: rank {wr} is {c.Get_rank()} of {c.Get_size()}")
                tot = c.allreduce(wr)
                if tot != sum(aprocs):
                    raise Violation("wrong-data", f"{what}: the active communicator sums {tot}")
                c.Barrier()
                mt.close(aprocs)
            return
        c = mt.active_comm(aprocs)
        if wr in aprocs:
            tot = c.allreduce(wr)
            if tot != sum(aprocs):
                raise Violation("wrong-data", f"{what}: the active communicator sums {tot}")

    def describe(self, program):
        return {k: program[k] for k in ("n", "comm", "ops")}

    def shrink(self, program):
        for p in super().shrink(program):
            if p["n"] < program["n"]:
                p["ops"] = [o if o[0] != "active" else ["active", [r for r in o[1] if r < p["n"]] or [0], o[2]] for o in p["ops"]]
            yield p


PROP = P()
