"""C03: histories of global reads/writes and ordinary slices against numpy on the whole array."""

import warnings

import numpy as np

from .. import harness, models
from ..sched import Violation

R = models


def decode(ix):
    out = []
    for e in ix:
        k = e[0]
        if k == "i":
            out.append(e[1])
        elif k == "n":
            out.append(np.int64(e[1]))
        elif k == "s":
            out.append(slice(*e[1:]))
        elif k == "e":
            out.append(Ellipsis)
        elif k == "w":
            out.append(None)
        elif k == "l":
            out.append(list(e[1]))
        elif k == "a":
            out.append(np.array(e[1], dtype=int))
    return tuple(out)


def full_index(ix, ndim):
    """Index with the ellipsis expanded: one entry per axis (plus new axes)."""
    ix = list(ix)
    if not any(x is Ellipsis for x in ix):
        ix.append(Ellipsis)
    p = [j for j, x in enumerate(ix) if x is Ellipsis][0]
    used = sum(1 for x in ix if x is not Ellipsis and x is not None)
    return ix[:p] + [slice(None)] * (ndim - used) + ix[p + 1 :]


class P(harness.Prop):
    id = "C03"
    title = "Global indexing addresses exactly the elements numpy would address"
    rule = (
        "a run = up to 10 global reads, global writes and ordinary slices (the sliced views stay live and are read and "
        "written again) on 1..7 simulated ranks; each rank's part and the whole array compared with numpy"
    )
    real = ("caput.mpiarray", "caput.util.mpitools")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 20000
    thorough_runs = 2000000
    assumptions = ("an integer outside the distributed axis addresses nothing (documented example), and is not generated",)

    def load(self):
        from caput import mpiarray
        from caput.util import mpitools

        self.mod = mpiarray
        self.tools = mpitools
        warnings.simplefilter("ignore")

    # -- programs -------------------------------------------------------------
    def gen_slice(self, rng, L, n):
        def b():
            return rng.choice([None, None, 0, 1, L, L // 2, L - 1, L + 3, -1, -L, -L - 2, rng.randrange(-L - 1, L + 2), rng.randrange(0, L + 1)])

        step = rng.choice([None] * 6 + [1, 2, 2, 3, n, -1, -2, L + 1])
        return ["s", b(), b(), step if step != 0 else 1]

    def gen_index(self, rng, shape, ax, n, direct):
        ix = []
        nd = len(shape)
        last = nd if rng.random() < 0.6 else rng.randrange(1, nd + 1)
        adv = False
        for j in range(last):
            L = shape[j]
            if j == ax and direct:
                ix.append(["s", None, None, None])
                continue
            r = rng.random()
            if r < 0.25 and L > 0:
                ix.append([rng.choice("iin"), rng.randrange(-L, L)])
            elif r < 0.55 or (j == ax and r < 0.8):
                ix.append(self.gen_slice(rng, L, n))
            elif r < 0.65 and L > 0 and j != ax and not adv and not any(e[0] in "in" for e in ix) and direct:
                ix.append([rng.choice("la"), [rng.randrange(-L, L) for _ in range(rng.randrange(1, 4))]])
                adv = True
            else:
                ix.append(["s", None, None, None])
        if adv:
            # numpy moves the axes when integers and lists mix: keep to slices
            ix = [["s", None, None, None] if e[0] in "in" else e for e in ix]
        if rng.random() < 0.3:
            # replace a run of full slices by an ellipsis
            runs = [j for j, e in enumerate(ix) if e == ["s", None, None, None]]
            if last == nd and runs:
                j = rng.choice(runs)
                k = j
                while k < len(ix) and ix[k] == ["s", None, None, None] and rng.random() < 0.7:
                    k += 1
                ix[j:max(k, j)] = [["e"]]
            elif last < nd:
                ix.append(["e"])
        if direct and rng.random() < 0.25:
            ix.insert(rng.randrange(len(ix) + 1), ["w"])
        return ix

    def generate(self, rng, i):
        n = R.gen_n(rng)
        shape = R.gen_shape(rng, n, zero_p=0.03)
        axis = rng.randrange(len(shape))
        ops = []
        shapes = [(shape, axis)]
        for _ in range(rng.randrange(1, 11)):
            v = rng.randrange(len(shapes))
            shp, ax = shapes[v]
            k = rng.choice(["gget", "gget", "gset", "gset", "gset", "get", "get"])
            if k == "get":
                ix = self.gen_index(rng, shp, ax, n, True)
                ops.append(["get", v, ix])
                try:
                    d = np.zeros(shp, "u1")[decode(ix)]
                except IndexError:
                    ops.pop()
                    continue
                fi = full_index(decode(ix), len(shp))
                a = self.out_axis(fi, ax)
                if d.ndim <= 5:
                    shapes.append((list(d.shape), a))
                else:
                    ops.pop()
            else:
                ix = self.gen_index(rng, shp, ax, n, False)
                if k == "gget":
                    ops.append(["gget", v, ix, rng.randrange(2)])
                else:
                    ops.append(["gset", v, ix, rng.choice(["scalar", "row", "part", "full", "loc"]), rng.randrange(1000)])
        return {"n": n, "shape": shape, "axis": axis, "dtype": rng.choice(R.DTYPES), "ops": ops, "env": harness.gen_env(rng),
                "comm": rng.choice(["world", "world", "none", "split"]), "layout": rng.choice(["C", "F"])}

    @staticmethod
    def out_axis(fi, ax):
        """Position of the distributed axis in the result of the expanded index."""
        pos = 0
        src = 0
        for e in fi:
            if e is None:
                pos += 1
                continue
            if src == ax:
                return None if isinstance(e, (int, np.integer)) else pos
            if not isinstance(e, (int, np.integer)):
                pos += 1
            src += 1
        return None

    # -- reference --------------------------------------------------------------
    def part(self, res, coords, oax, size, rank, L):
        """This rank's part of a global result; None if it owns nothing of it."""
        _, s, e = R.share(L, size, rank)
        if oax is None:
            return res if s <= coords < e else None
        own = (coords >= s) & (coords < e)
        if not own.any():
            return None
        return np.compress(own, res, axis=oax)

    def execute(self, program, ctx):
        g0 = R.make(program["shape"], program["dtype"])
        if program["axis"] >= g0.ndim:
            return
        S = [(g0.copy(), program["axis"])]
        n = program["n"]
        steps = []
        for op in program["ops"]:
            if op[1] >= len(S):
                ctx.probe("inapplicable")
                return
            g, ax = S[op[1]]
            idx = decode(op[2])
            try:
                res = g[idx]
            except IndexError:
                ctx.probe("inapplicable")
                return
            fi = full_index(idx, g.ndim)
            if op[0] == "get":
                S.append((res, self.out_axis(fi, ax)))
                steps.append((op, idx, None, None, None, [(x.copy(), a) for x, a in S]))
                continue
            oax = self.out_axis(fi, ax)
            dix = [e for e in fi if e is not None][ax]
            coords = np.arange(g.shape[ax])[dix]
            isfull = isinstance(dix, slice) and dix == slice(None)
            if op[0] == "gget":
                steps.append((op, idx, (g.copy()[idx], coords, oax, isfull, g.shape[ax]), None, None, [(x.copy(), a) for x, a in S]))
            else:
                form = op[3]
                if form == "scalar" or np.ndim(res) == 0:
                    val = R.make((1,), program["dtype"], op[4])[0]
                    form = "scalar"
                elif form == "row":
                    # one value along the distributed axis, everything along the others
                    shp = list(res.shape)
                    if oax is not None:
                        shp[oax] = 1
                    val = R.make(shp, program["dtype"], op[4])
                else:
                    val = R.make(res.shape, program["dtype"], op[4])
                g[idx] = val
                steps.append((op, idx, (None, coords, oax, isfull, g.shape[ax]), form, val, [(x.copy(), a) for x, a in S]))
        first = g0
        MPIArray = self.mod.MPIArray
        MPI = self.tools.MPI

        def rank_main(wr):
            world = MPI.COMM_WORLD
            comm = world.Split(wr % 2, wr) if program["comm"] == "split" else world
            arg = None if program["comm"] == "none" else comm
            size, rank = comm.Get_size(), comm.Get_rank()
            V = [MPIArray.wrap(R.local_part(first, program["axis"], size, rank).copy(order=program["layout"]), program["axis"], comm=arg)]
            for q, (op, idx, info, form, val, after) in enumerate(steps):
                what = f"step {q} {op} on shape {after[op[1]][0].shape} over axis {after[op[1]][1]}"
                arr = V[op[1]]
                # a lone index need not be a tuple
                ix = idx[0] if len(idx) == 1 and (q % 2 == 0) else idx
                if op[0] == "get":
                    V.append(arr[ix])
                elif op[0] == "gget":
                    res, coords, oax, isfull, L = info
                    got = arr.global_slice[ix]
                    if isfull:
                        R.check_dist(got, res, oax, size, rank, what, comm)
                    else:
                        exp = self.part(res, coords, oax, size, rank, L)
                        if exp is None:
                            if got is not None:
                                raise Violation("wrong-data", f"{what}: rank {rank}/{size} owns nothing but got {np.shape(got)}")
                        elif got is None:
                            raise Violation("wrong-data", f"{what}: rank {rank}/{size} got nothing, expected {np.shape(exp)}")
                        else:
                            if isinstance(got, MPIArray):
                                raise Violation("wrong-type", f"{what}: partial slice gave a distributed array")
                            if not R.same(got, exp):
                                raise Violation("wrong-data", f"{what}: rank {rank}/{size} {R.describe_diff(got, exp)}")
                else:
                    _, coords, oax, isfull, L = info
                    if form in ("scalar", "row"):
                        v = val
                        if form == "row" and oax is None:
                            v = self.part(val, coords, oax, size, rank, L)
                    elif isfull:
                        loc = R.local_part(val, oax, size, rank).copy()
                        v = MPIArray.wrap(loc, oax, comm=arg) if form == "full" else loc
                    else:
                        v = self.part(val, coords, oax, size, rank, L)
                    arr.global_slice[ix] = v
                for j, (g, ax) in enumerate(after):
                    R.check_dist(V[j], g, ax, size, rank, f"{what}, array {j}", comm)
            return True

        run = ctx.simulate(n, rank_main, program["env"])
        ctx.require_clean(run, "indexing:")
        harness.require_no_leftovers(run)
        for op in program["ops"]:
            ctx.probe("op_" + op[0])

    def describe(self, program):
        return {k: program[k] for k in ("n", "shape", "axis", "dtype", "ops")}

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("dtype", "f8"), ("comm", "world"), ("layout", "C")):
            if program[k] != v:
                yield dict(program, **{k: v})


PROP = P()
