"""C01: any history of rearrangements of a distributed array against numpy on the whole array."""

import itertools

import numpy as np

from .. import harness, models
from ..sched import Violation

R = models


def factorise(rng, n):
    """A random list of factors with product n."""
    if n == 0:
        return [0]
    out = []
    while n > 1 and rng.random() < 0.6:
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = rng.choice(ds)
        out.append(d)
        n //= d
    out.append(n)
    rng.shuffle(out)
    return out


class P(harness.Prop):
    id = "C01"
    title = "Rearranging a distributed array never changes the global array"
    rule = (
        "a run = one history of up to 8 rearrangements of one distributed array on 1..7 simulated ranks; "
        "after every step each rank compares data and layout with numpy on the whole array"
    )
    real = ("caput.mpiarray", "caput.util.mpitools")
    stub = ("mpi4py (simulated network)", "clock", "uninitialised memory (poisoned)", "compiled kernels (unused here)")
    quick_runs = 20000
    thorough_runs = 2000000
    assumptions = (
        "MPI semantics as in simlab/fakempi.py (non-overtaking order per pair and tag, sends may be buffered or synchronous)",
    )

    def load(self):
        from caput import mpiarray
        from caput.util import mpitools

        self.mod = mpiarray
        self.tools = mpitools

    # -- programs -------------------------------------------------------------
    def generate(self, rng, i):
        n = R.gen_n(rng)
        shape = R.gen_shape(rng, n)
        axis = rng.randrange(len(shape))
        dt = rng.choice(R.DTYPES)
        comm = rng.choice(["world", "world", "world", "none", "dup", "split", "split2"])
        ops = []
        cur, ax = list(shape), axis
        for _ in range(rng.randrange(1, 9)):
            op, cur, ax = self.gen_op(rng, cur, ax, n)
            ops.append(op)
        return {
            "n": n, "shape": shape, "axis": axis, "dtype": dt, "comm": comm, "ops": ops,
            "layout": rng.choice(["new", "C", "C", "F", "strided", "perm"]) if dt not in R.PLAIN or rng.random() > 0.1 else rng.choice(["zeros", "ones"]), "env": harness.gen_env(rng),
            "nbig": rng.random() < 0.02,
        }

    def gen_op(self, rng, shape, ax, n):
        nd = len(shape)
        k = rng.choice(
            ["redist"] * 5 + ["gather", "gather", "allgather", "copy", "transpose", "transpose", "reshape",
                              "reshape", "wrap", "badwrap", "badreshape", "mutate", "T", "swap", "move", "enumerate"]
        )
        if k == "redist":
            a = rng.randrange(nd)
            return ["redist", a], shape, a
        if k == "gather":
            return ["gather", rng.randrange(8), rng.random() < 0.3], shape, ax
        if k == "allgather":
            return ["allgather"], shape, ax
        if k == "copy":
            return ["copy", rng.choice(["", "C", "F", "K", "A"])], shape, ax
        if k == "transpose":
            p = list(range(nd))
            rng.shuffle(p)
            form = rng.choice(["tuple", "list", "args", "none", "None", "np", "npnone", "neg"])
            if form in ("none", "None", "npnone"):
                p = list(range(nd))[::-1]
            return ["transpose", form, p], [shape[x] for x in p], p.index(ax)
        if k in ("swap", "move"):
            a, b = rng.randrange(nd), rng.randrange(nd)
            p = self.perm(k, a, b, nd)
            if rng.random() < 0.3:
                a -= nd
            return [k, a, b], [shape[x] for x in p], p.index(ax)
        if k == "badreshape":
            return ["badreshape", rng.randrange(2, 12), rng.random() < 0.5, rng.random() < 0.5], shape, ax
        if k == "T":
            p = list(range(nd))[::-1]
            return ["T"], [shape[x] for x in p], p.index(ax)
        if k == "reshape":
            pre = int(np.prod(shape[:ax], dtype=int))
            post = int(np.prod(shape[ax + 1 :], dtype=int))
            npre = factorise(rng, pre) if (pre != 1 or rng.random() < 0.3) else []
            npost = factorise(rng, post) if (post != 1 or rng.random() < 0.3) else []
            if len(npre) + len(npost) > 5:
                return ["allgather"], shape, ax
            arg = [*npre, None, *npost]
            new = [*npre, shape[ax], *npost]
            if rng.random() < 0.4 and pre * post > 0:
                # One wildcard on each side is allowed: the two sides are checked apart
                js = [j for j in range(len(arg)) if arg[j] is not None]
                if js:
                    arg = list(arg)
                    arg[rng.choice(js)] = -1
            return ["reshape", arg, rng.choice(["tuple", "args", "list"]), rng.choice(["C", "C", "F"])], new, len(npre)
        if k == "wrap":
            return ["wrap", rng.choice(["C", "F", "view"])], shape, ax
        if k == "badwrap":
            return ["badwrap", rng.randrange(8), rng.choice([-1, 1])], shape, ax
        if k == "mutate":
            return ["mutate", rng.randrange(50)], shape, ax
        return [k], shape, ax

    @staticmethod
    def perm(k, a, b, nd):
        p = list(range(nd))
        a %= nd
        if k == "swap":
            p[a], p[b] = p[b], p[a]
        else:
            p.insert(b, p.pop(a))
        return p

    # -- reference ------------------------------------------------------------
    def model(self, program):
        """Whole array and distributed axis after every operation; None if not applicable."""
        g = R.make(program["shape"], program["dtype"])
        ax = program["axis"]
        if ax >= g.ndim:
            return None
        states = [(g, ax)]
        for op in program["ops"]:
            k = op[0]
            if k == "redist":
                if op[1] >= g.ndim:
                    return None
                ax = op[1]
            elif k in ("transpose", "T", "swap", "move"):
                if k in ("swap", "move"):
                    if not -g.ndim <= op[1] < g.ndim or op[2] >= g.ndim:
                        return None
                    p = self.perm(k, op[1], op[2], g.ndim)
                else:
                    p = list(range(g.ndim))[::-1] if k == "T" or op[1].lower() in ("none", "npnone") else op[2]
                if sorted(p) != list(range(g.ndim)):
                    return None
                g = np.transpose(g, p).copy(order="C")
                ax = p.index(ax)
            elif k == "reshape":
                if op[1].count(None) != 1:
                    return None
                na = op[1].index(None)
                order = op[3]
                # reference: reshape keeps the distributed axis, so move it to the front
                pre, d, post = g.shape[:ax], g.shape[ax], g.shape[ax + 1 :]
                np_, npo = op[1][:na], op[1][na + 1 :]

                def fill(old, new):
                    size = int(np.prod(old, dtype=int))
                    if -1 in new:
                        rest = int(np.prod([x for x in new if x != -1], dtype=int))
                        if rest == 0 or size % rest:
                            return None
                        new = [size // rest if x == -1 else x for x in new]
                    return new if int(np.prod(new, dtype=int)) == size else None

                np2, npo2 = fill(pre, np_), fill(post, npo)
                if np2 is None or npo2 is None:
                    return None
                front = np.moveaxis(g, ax, 0)
                new = np.empty((d, *np2, *npo2), g.dtype)
                for j in range(d):
                    new[j] = front[j].reshape((*np2, *npo2), order=order)
                g = np.moveaxis(new, 0, na).copy(order="C")
                ax = na
            elif k == "mutate":
                g = R.make(g.shape, program["dtype"], op[1] + 1)
            states.append((g, ax))
        return states

    # -- execution --------------------------------------------------------------
    def make_local(self, lp, layout):
        if layout == "F":
            return lp.copy(order="F")
        if layout == "strided":
            big = np.zeros((*lp.shape[:-1], lp.shape[-1] * 2), lp.dtype)
            v = big[..., ::2]
            v[...] = lp
            return v
        if layout == "perm" and lp.ndim > 1:
            p = list(range(1, lp.ndim)) + [0]
            v = np.transpose(lp, p).copy(order="C")
            return np.transpose(v, np.argsort(p))
        return lp.copy(order="C")

    def execute(self, program, ctx):
        states = self.model(program)
        if states is None:
            ctx.probe("inapplicable")
            return
        MPIArray = self.mod.MPIArray
        MPI = self.tools.MPI

        def rank_main(wr):
            world = MPI.COMM_WORLD
            cm = program["comm"]
            comm = world
            if cm == "dup":
                comm = world.Dup()
            elif cm == "split":
                comm = world.Split(wr % 2, wr)
            elif cm == "split2":
                comm = world.Split(0, -wr)
            size, rank = comm.Get_size(), comm.Get_rank()
            arg = None if cm == "none" else comm
            g, ax = states[0]
            lp = R.local_part(g, ax, size, rank)
            if program["layout"] == "new":
                arr = MPIArray(tuple(g.shape), axis=ax, comm=arg, dtype=g.dtype)
                arr[:] = lp
            elif program["layout"] in ("zeros", "ones"):
                arr = getattr(self.mod, program["layout"])(tuple(g.shape), axis=ax, comm=arg, dtype=g.dtype)
                R.check_dist(arr, getattr(np, program["layout"])(g.shape, g.dtype), ax, size, rank, program["layout"], comm)
                arr[:] = lp
            else:
                arr = MPIArray.wrap(self.make_local(lp, program["layout"]), ax, comm=arg)
            R.check_dist(arr, g, ax, size, rank, "start", comm)
            for j, op in enumerate(program["ops"]):
                what = f"step {j} {op}"
                before = arr
                bg, bax = states[j]
                g, ax = states[j + 1]
                k = op[0]
                if k == "redist":
                    arr = arr.redistribute(op[1])
                    if size > 1 and bax != ax and not arr.flags["C_CONTIGUOUS"]:
                        raise Violation("layout", f"{what}: result not c-contiguous")
                elif k == "gather":
                    root = op[1] % size
                    got = arr.gather() if (op[2] and root == 0) else arr.gather(root)
                    if rank == root:
                        R.check_array(got, g, what, rank)
                        if type(got) is not np.ndarray:
                            raise Violation("wrong-type", f"{what}: {type(got)}")
                    elif got is not None:
                        raise Violation("wrong-data", f"{what}: rank {rank} is not the root but got an array")
                elif k == "allgather":
                    got = arr.allgather()
                    R.check_array(got, g, what, rank)
                    if type(got) is not np.ndarray:
                        raise Violation("wrong-type", f"{what}: {type(got)}")
                elif k == "copy":
                    arr = arr.copy(op[1]) if op[1] else arr.copy()
                    if arr.size and np.shares_memory(arr.local_array, before.local_array):
                        raise Violation("aliasing", f"{what}: copy shares memory with its source")
                elif k == "transpose":
                    p = op[2]
                    form = op[1]
                    if form == "args":
                        arr = arr.transpose(*p)
                    elif form == "none":
                        arr = arr.transpose()
                    elif form == "None":
                        arr = arr.transpose(None)
                    elif form == "npnone":
                        arr = np.transpose(arr)
                    elif form == "neg":
                        arr = arr.transpose([x - len(p) for x in p])
                    elif form == "np":
                        arr = np.transpose(arr, p)
                    elif form == "list":
                        arr = arr.transpose(list(p))
                    else:
                        arr = arr.transpose(tuple(p))
                elif k == "T":
                    arr = arr.T
                elif k == "swap":
                    arr = arr.swapaxes(op[1], op[2])
                elif k == "move":
                    arr = np.moveaxis(arr, op[1], op[2])
                elif k == "badreshape":
                    # a shape that does not fit the rest of the array: every rank refuses
                    rest = int(np.prod([x for i, x in enumerate(g.shape) if i != ax], dtype=int))
                    f = op[1]
                    if op[3]:
                        if rest % f == 0:
                            continue
                        shp = (f, -1, None) if op[2] else (None, f, -1)
                    else:
                        if rest == f:
                            continue
                        shp = (f, None) if op[2] else (None, f)
                    try:
                        arr.reshape(shp)
                    except ValueError:
                        pass
                    else:
                        raise Violation("not-refused", f"{what}: rank {rank} accepted {shp} for {g.shape}")
                elif k == "reshape":
                    _, shp, form, order = op
                    kw = {} if order == "C" else {"order": order}
                    arr = arr.reshape(*shp, **kw) if form == "args" else arr.reshape(
                        (list if form == "list" else tuple)(shp), **kw)
                elif k == "wrap":
                    loc = arr.local_array
                    if op[1] != "view":
                        loc = loc.copy(order=op[1])
                    arr = MPIArray.wrap(loc, ax, comm=arg)
                elif k == "badwrap":
                    # one rank brings a piece of the wrong length: every rank refuses
                    bad = op[1] % size
                    loc = arr.local_array
                    n = loc.shape[ax]
                    if rank == bad:
                        if n + op[2] < 0:
                            loc = None
                        else:
                            shp = list(loc.shape)
                            shp[ax] = n + op[2]
                            loc = np.zeros(shp, loc.dtype)
                    # is it really a wrong layout for the new total?
                    lens = [R.share(g.shape[ax], size, r)[0] for r in range(size)]
                    lens[bad] += op[2]
                    if lens[bad] < 0:
                        continue
                    tot = sum(lens)
                    if all(lens[r] == R.share(tot, size, r)[0] for r in range(size)):
                        continue
                    try:
                        MPIArray.wrap(loc, ax, comm=arg)
                    except self.mod.AxisException:
                        pass
                    else:
                        raise Violation("not-refused", f"{what}: rank {rank} accepted uneven pieces {lens}")
                elif k == "mutate":
                    arr[:] = R.local_part(g, ax, size, rank)
                elif k == "enumerate":
                    for a in range(arr.ndim):
                        got = list(arr.enumerate(a))
                        lo = R.share(g.shape[a], size, rank)[1] if a == ax else 0
                        if got != [(x, x + lo) for x in range(arr.shape[a])]:
                            raise Violation("metadata", f"{what}: enumerate({a}) gives {got}")
                R.check_dist(arr, g, ax, size, rank, what, comm)
                if k in ("redist", "copy", "gather", "allgather") and before is not arr:
                    R.check_dist(before, bg, bax, size, rank, what + " (source afterwards)", comm)
            return True

        run = ctx.simulate(program["n"], rank_main, program["env"])
        ctx.require_clean(run, f"history {[o[0] for o in program['ops']]}:")
        harness.require_no_leftovers(run)
        for op in program["ops"]:
            ctx.probe("op_" + op[0])
        if min(program["shape"]) == 0:
            ctx.probe("zero_length_axis")
        if any(g.shape[ax] < program["n"] for g, ax in states):
            ctx.probe("axis_shorter_than_ranks")

    def describe(self, program):
        return {k: program[k] for k in ("n", "shape", "axis", "dtype", "layout", "comm", "ops")}

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("layout", "C"), ("dtype", "f8"), ("comm", "world")):
            if program[k] != v:
                yield dict(program, **{k: v})
        for j, x in enumerate(program["shape"]):
            for y in (1, 2, x - 1):
                if 0 < y < x:
                    s = list(program["shape"])
                    s[j] = y
                    yield dict(program, shape=s)


PROP = P()
