"""C02: random histories of ufunc arithmetic on distributed arrays against numpy on the whole arrays."""

import warnings

import numpy as np

from .. import harness, models
from ..sched import Violation

R = models

UNARY = ["negative", "absolute", "square", "sqrt", "conjugate", "positive"]
UNARY_DISC = ["sign", "floor", "isfinite", "logical_not", "rint"]
BINARY = ["add", "subtract", "multiply", "true_divide", "maximum", "minimum"]
BINARY_DISC = ["equal", "less", "greater_equal", "floor_divide", "logical_and", "logical_or", "not_equal"]
MULTI = ["divmod", "modf", "frexp"]
REDUCE = ["sum", "max", "min", "mean", "prod", "any", "all", "std", "var"]
UFRED = ["add", "multiply", "maximum", "minimum", "logical_or"]
REFUSE = ["otheraxis", "reduce_dist", "acc_dist", "where", "nparr", "outer", "inplace_np", "outbad", "othercomm", "at", "outnp", "cumsum_dist"]


class Skip(Exception):
    pass


class P(harness.Prop):
    id = "C02"
    title = "Arithmetic on distributed arrays equals arithmetic on the whole array"
    rule = (
        "a run = one history of up to 7 element-wise, reducing, accumulating, in-place and refused operations on a "
        "pool of distributed arrays on 1..7 simulated ranks, each result compared with numpy on the whole arrays"
    )
    real = ("caput.mpiarray", "caput.util.mpitools", "numpy")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 20000
    thorough_runs = 2000000
    assumptions = ("floating-point sums may be grouped differently per rank: compared to a relative 1e-9 (1e-4 in single precision) of the largest value seen",)

    def load(self):
        from caput import mpiarray
        from caput.util import mpitools

        self.mod = mpiarray
        self.tools = mpitools
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")

    def generate(self, rng, i):
        n = R.gen_n(rng)
        L = max(R.gen_len(rng, n), 0)
        nd = rng.randrange(1, 5)
        ax = rng.randrange(nd)
        base = [rng.randrange(1, 4) for _ in range(nd)]
        base[ax] = L
        vars_ = []
        for _ in range(rng.randrange(1, 4)):
            # a variable that broadcasts against the base shape and keeps the distributed axis
            drop = rng.randrange(0, ax + 1)
            shp = list(base[drop:])
            a = ax - drop
            for j in range(len(shp)):
                if j != a and rng.random() < 0.25:
                    shp[j] = 1
            vars_.append([shp, a, rng.choice(R.PLAIN + ["f8", "f8", "?"]), rng.choice(["C", "C", "F"])])
        ops = []
        for _ in range(rng.randrange(1, 8)):
            k = rng.choice(["un", "un", "bin", "bin", "bin", "binsc", "binnp", "inplace", "inplace", "out", "red", "red",
                            "ufred", "acc", "total", "total", "refuse", "refuse", "refuse", "multi", "astype", "real", "T", "dtype"])
            r = [rng.randrange(1 << 16) for _ in range(4)]
            ops.append([k, *r])
        return {"n": n, "base": base, "axis": ax, "vars": vars_, "ops": ops, "env": harness.gen_env(rng),
                "comm": rng.choice(["world", "world", "none", "split"])}

    # -- one interpreter for the reference and for the code under test ------------------
    def step(self, S, op, size):
        """Decide what *op* means for the reference state; returns a plan or raises Skip."""
        k, a, b, c, d = op
        nv = len(S)
        i = a % nv
        g, ax, ex = S[i]
        if k == "un":
            names = UNARY + (UNARY_DISC if ex else [])
            return ("un", names[b % len(names)], i)
        if k in ("bin", "out", "dtype"):
            j = b % nv
            h, hx, hex_ = S[j]
            if ax - g.ndim != hx - h.ndim or g.shape[ax] != h.shape[hx]:
                raise Skip
            names = BINARY + (BINARY_DISC if ex and hex_ else [])
            nm = names[c % len(names)]
            if k == "bin":
                return ("bin", nm, i, j, d % 2)
            if k == "dtype":
                return ("dtype", BINARY[c % 4], i, j, ["f8", "f4", "c16"][d % 3])
            o, ox, _ = S[d % nv]
            if o.shape[ox] != g.shape[ax] or o.ndim != max(g.ndim, h.ndim) or ox - o.ndim != ax - g.ndim:
                raise Skip
            return ("out", nm, i, j, d % nv)
        if k == "binsc":
            names = BINARY + (BINARY_DISC if ex else [])
            sc = [2, 3.0, -1, 0.5, 1 + 2j, np.float32(4), np.int64(3), True][b % 8]
            return ("binsc", names[c % len(names)], i, sc, d % 2)
        if k == "binnp":
            names = BINARY + (BINARY_DISC if ex else [])
            # a plain array whose part on the distributed axis has length 1 (or is absent)
            shp = list(g.shape)
            shp[ax] = 1
            drop = b % (g.ndim + 1)
            shp = shp[drop:]
            if d & 2 and shp:
                shp[c % len(shp)] = 1
            if d & 4:
                # more dimensions than the distributed array
                shp = [2, *([1] * (g.ndim - len(shp))), *shp]
            return ("binnp", names[c % len(names)], i, shp, d % 2)
        if k == "inplace":
            nm = ["iadd", "isub", "imul", "itruediv"][b % 4]
            j = c % nv
            if d % 2:
                return ("inplace", nm, i, [2, 3, 0.5][c % 3])
            h, hx, _ = S[j]
            if ax - g.ndim != hx - h.ndim or g.shape[ax] != h.shape[hx] or h.ndim > g.ndim:
                raise Skip
            return ("inplacev", nm, i, j)
        if k in ("red", "ufred"):
            axes = [x for x in range(g.ndim) if x != ax]
            if not axes:
                raise Skip
            form = b % 6
            if form == 0:
                arg = axes[c % len(axes)]
            elif form == 1:
                arg = axes[c % len(axes)] - g.ndim
            elif form == 2:
                arg = tuple(axes)
            elif form == 3:
                arg = tuple(x - g.ndim if (c >> x) & 1 else x for x in axes[: 1 + c % len(axes)])
            elif form == 4:
                arg = (axes[c % len(axes)],)
            else:
                arg = tuple(reversed(axes))
            kd = bool(d & 1)
            if k == "red":
                nm = REDUCE[(d >> 1) % len(REDUCE)]
                if nm in ("any", "all") and not ex:
                    raise Skip
            else:
                nm = UFRED[(d >> 1) % len(UFRED)]
                if nm == "logical_or" and not ex:
                    raise Skip
            if min([g.shape[x] for x in axes]) == 0:
                raise Skip
            return (k, nm, i, arg, kd)
        if k == "acc":
            axes = [x for x in range(g.ndim) if x != ax]
            if not axes:
                raise Skip
            x = axes[b % len(axes)]
            return ("acc", ["add", "maximum", "multiply"][c % 3], i, x - g.ndim if d % 2 else x, (d >> 1) % 3)
        if k == "total":
            nm = ["sum", "max", "min", "sum0", "prod", "any", "all"][b % 7]
            if nm in ("any", "all"):
                return ("total", nm, i, c % 2)
            if g.dtype.kind == "b" or g.dtype.char == "e" or (nm in ("max", "min") and (g.dtype.kind == "c" or 0 in g.shape or g.shape[ax] < size)):
                raise Skip
            if g.dtype.kind == "c" and nm != "sum":
                raise Skip
            return ("total", nm, i, c % 2)
        if k == "multi":
            if g.dtype.kind != "f" or not ex:
                raise Skip
            return ("multi", MULTI[b % 3], i)
        if k == "astype":
            return ("astype", i, ["f8", "f4", "i8", "c16"][b % 4] if g.dtype.kind != "c" else "c16")
        if k == "real":
            if g.dtype.kind != "c":
                raise Skip
            return ("real", i, b % 2)
        if k == "T":
            return ("T", i)
        if k == "refuse":
            nm = REFUSE[b % len(REFUSE)]
            L = g.shape[ax]
            if nm == "otheraxis" and g.ndim < 2:
                raise Skip
            if nm == "othercomm" and size < 2:
                raise Skip
            return ("refuse", nm, i, c, d)
        raise Skip

    def apply(self, plan, V, dist):
        """Run *plan* on the variables *V* (whole arrays or distributed arrays); returns new values."""
        k = plan[0]
        if k == "un":
            return [getattr(np, plan[1])(V[plan[2]])]
        if k == "bin":
            f = getattr(np, plan[1])
            x, y = V[plan[2]], V[plan[3]]
            if plan[4] and plan[1] in ("add", "subtract", "multiply", "true_divide"):
                return [{"add": lambda: x + y, "subtract": lambda: x - y, "multiply": lambda: x * y, "true_divide": lambda: x / y}[plan[1]]()]
            return [f(x, y)]
        if k == "dtype":
            return [getattr(np, plan[1])(V[plan[2]], V[plan[3]], dtype=plan[4])]
        if k == "binsc":
            f = getattr(np, plan[1])
            return [f(plan[3], V[plan[2]]) if plan[4] else f(V[plan[2]], plan[3])]
        if k == "binnp":
            f = getattr(np, plan[1])
            y = (np.arange(int(np.prod(plan[3], dtype=int))) % 5 + 1.0).reshape(plan[3])
            return [f(y, V[plan[2]]) if plan[4] else f(V[plan[2]], y)]
        if k == "inplace":
            x = V[plan[2]]
            s = plan[3]
            if plan[1] == "iadd":
                x += s
            elif plan[1] == "isub":
                x -= s
            elif plan[1] == "imul":
                x *= s
            else:
                x /= s
            V[plan[2]] = x
            return []
        if k == "inplacev":
            x = V[plan[2]]
            s = V[plan[3]]
            if plan[1] == "iadd":
                x += s
            elif plan[1] == "isub":
                x -= s
            elif plan[1] == "imul":
                x *= s
            else:
                x /= s
            V[plan[2]] = x
            return []
        if k == "out":
            o = V[plan[4]]
            r = getattr(np, plan[1])(V[plan[2]], V[plan[3]], out=o)
            if r is not o:
                raise Violation("wrong-data", f"{plan}: the out argument is not what is returned")
            return []
        if k == "red":
            return [getattr(V[plan[2]], plan[1])(axis=plan[3], keepdims=plan[4])]
        if k == "ufred":
            return [getattr(np, plan[1]).reduce(V[plan[2]], axis=plan[3], keepdims=plan[4])]
        if k == "acc":
            f = getattr(np, plan[1])
            if plan[4] == 1 and plan[1] == "add":
                return [np.cumsum(V[plan[2]], axis=plan[3])]
            return [f.accumulate(V[plan[2]], axis=plan[3])]
        if k == "multi":
            if plan[1] == "divmod":
                return list(np.divmod(V[plan[2]], 3))
            return list(getattr(np, plan[1])(V[plan[2]]))
        if k == "astype":
            return [V[plan[1]].astype(plan[2])]
        if k == "real":
            return [V[plan[1]].imag if plan[2] else V[plan[1]].real]
        if k == "T":
            return [V[plan[1]].transpose()]
        raise AssertionError(k)

    def build_model(self, program):
        """Plans with expected values, or None where the operation does not apply."""
        S = []
        for j, (shp, a, dt, lay) in enumerate(program["vars"]):
            if a >= len(shp):
                return None
            g = R.make(shp, dt, j)
            if g.dtype.kind in "fc":
                g = (g.real % 17).astype(g.dtype) if g.dtype.kind == "f" else (g.real % 17 + 1j * (g.imag % 13)).astype(g.dtype)
            elif g.dtype.kind in "iu":
                g = (g % 17).astype(g.dtype)
            S.append([g.copy(order="F" if lay == "F" else "C"), a, True])
        n = program["n"]
        sizes = [n]
        if program["comm"] == "split":
            sizes = sorted({(n + 1) // 2, n // 2} - {0})
        steps = []
        scale = 1.0

        def rescale():
            nonlocal scale
            for g, _, _ in S:
                if g.size and g.dtype.kind in "fciu":
                    f = np.abs(g.astype("c16") if g.dtype.kind == "c" else g.astype("f8"))
                    f = f[np.isfinite(f)]
                    if f.size:
                        scale = max(scale, float(f.max()))

        rescale()
        first = [(g.copy(), ax) for g, ax, _ in S]
        for op in program["ops"]:
            try:
                plan = self.step(S, op, max(sizes))
                if plan[0] == "total":
                    steps.append((plan, None, scale))
                    continue
                if plan[0] == "refuse":
                    steps.append((plan, None, scale))
                    continue
                V = [g for g, _, _ in S]
                keep = [g.copy() for g in V]
                try:
                    out = self.apply(plan, V, False)
                except (TypeError, ValueError, OverflowError):
                    # numpy itself refuses (casting, shapes): every rank has to refuse as well
                    for g, kp in zip([s[0] for s in S], keep):
                        g[...] = kp
                    if plan[0] in ("inplace", "inplacev", "out", "bin", "dtype", "un", "binsc", "binnp"):
                        steps.append((("numpyrefuses", plan), None, scale))
                        continue
                    raise Skip from None
            except Skip:
                continue
            # where the distributed axis of the result is
            newv = []
            k = plan[0]
            exact = True
            srcs = {"un": [2], "bin": [2, 3], "dtype": [2, 3], "binsc": [2], "binnp": [2], "red": [2], "ufred": [2], "acc": [2],
                    "multi": [2], "astype": [1], "real": [1], "T": [1], "inplace": [2], "inplacev": [2, 3], "out": [2, 3]}[k]
            exact = all(S[plan[q]][2] for q in srcs)
            g0, ax0, _ = S[plan[srcs[0]]]
            if k in ("red", "ufred", "acc") and g0.dtype.kind in "fc" and plan[1] in ("sum", "mean", "prod", "std", "var", "add", "multiply"):
                exact = False
            if k == "red" and plan[1] in ("mean", "std", "var"):
                exact = False
            for o in out:
                if k in ("red", "ufred"):
                    axs = {x % g0.ndim for x in (plan[3] if isinstance(plan[3], tuple) else (plan[3],))}
                    na = ax0 if plan[4] else ax0 - sum(1 for x in axs if x < ax0)
                elif k == "T":
                    na = g0.ndim - 1 - ax0
                else:
                    na = o.ndim - (g0.ndim - ax0)
                newv.append([o, na, exact])
            if k in ("inplace", "inplacev", "out"):
                tgt = plan[4] if k == "out" else plan[2]
                S[tgt][2] = S[tgt][2] and exact if k != "out" else exact
                # views of the same data
                for q in range(len(S)):
                    if np.shares_memory(S[q][0], S[tgt][0]):
                        S[q][2] = S[tgt][2]
            S.extend(newv)
            rescale()
            steps.append((plan, [(g.copy(), ax) for g, ax, _ in S], scale))
            if len(S) > 9 or sum(g.size for g, _, _ in S) > 20000:
                break
        return first, steps

    @staticmethod
    def close(a, b, scale):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            tol = 1e-2 if a.dtype.char == "e" else 1e-4 if a.real.dtype.itemsize <= 4 else 1e-9
            with np.errstate(all="ignore"):
                return np.allclose(a, b, rtol=tol, atol=tol * min(scale, 1e200), equal_nan=True)
        return np.array_equal(a, b)

    def check(self, arr, g, ax, size, rank, what, comm, scale):
        ok = isinstance(arr, self.mod.MPIArray) and arr.local_array.shape == R.local_part(g, ax, size, rank).shape and self.close(
            arr.local_array, R.local_part(g, ax, size, rank), scale)
        if ok:
            # values agree within the tolerance: check only the layout exactly
            g2 = g
            if not R.same(arr.local_array, R.local_part(g, ax, size, rank)):
                g2 = g.copy()
                R.local_part(g2, ax, size, rank)[...] = arr.local_array
            R.check_dist(arr, g2, ax, size, rank, what, comm)
        else:
            R.check_dist(arr, g, ax, size, rank, what, comm)

    def execute(self, program, ctx):
        m = self.build_model(program)
        if m is None or program["axis"] >= len(program["base"]):
            ctx.probe("inapplicable")
            return
        first, steps = m
        MPIArray = self.mod.MPIArray
        MPI = self.tools.MPI

        def rank_main(wr):
            world = MPI.COMM_WORLD
            comm = world.Split(wr % 2, wr) if program["comm"] == "split" else world
            arg = None if program["comm"] == "none" else comm
            size, rank = comm.Get_size(), comm.Get_rank()
            V = []
            for (g, ax), (_, _, _, lay) in zip(first, program["vars"]):
                V.append(MPIArray.wrap(R.local_part(g, ax, size, rank).copy(order="F" if lay == "F" else "C"), ax, comm=arg))
            state = first
            for q, (plan, after, scale) in enumerate(steps):
                what = f"step {q} {plan}"
                if plan[0] == "numpyrefuses":
                    try:
                        self.apply(plan[1], V, True)
                    except (TypeError, ValueError, OverflowError):
                        pass
                    else:
                        raise Violation("not-refused", f"{what}: rank {rank}/{size} did not refuse what numpy refuses")
                elif plan[0] == "total":
                    self.total(plan, V, state, size, rank, comm, what, scale)
                elif plan[0] == "refuse":
                    self.refuse(plan, V, state, size, rank, comm, world, what)
                else:
                    V.extend(self.apply(plan, V, True))
                    state = after
                for j, (g, ax) in enumerate(state):
                    self.check(V[j], g, ax, size, rank, f"{what}, variable {j}", comm, scale)
            return True

        run = ctx.simulate(program["n"], rank_main, program["env"])
        ctx.require_clean(run, f"plans {[s[0] for s in steps]}:")
        harness.require_no_leftovers(run)
        for s in steps:
            ctx.probe("op_" + s[0][0] + ("_" + s[0][1] if s[0][0] == "refuse" else ""))

    def total(self, plan, V, state, size, rank, comm, what, scale):
        MPI = self.tools.MPI
        g, ax = state[plan[2]]
        x = V[plan[2]]
        nm = plan[1]
        if nm == "sum0":
            r = np.sum(x)
            nm = "sum"
        else:
            r = getattr(x, nm)()
        exp_l = getattr(R.local_part(g, ax, size, rank), nm)()
        if not isinstance(r, self.mod.MPIArray) or tuple(r.global_shape) != (size,) or tuple(r.local_offset) != (rank,) or r.shape != (1,):
            raise Violation("metadata", f"{what}: total reduction on rank {rank}/{size} is {type(r).__name__} "
                            f"{getattr(r, 'global_shape', None)} {getattr(r, 'local_offset', None)}")
        op = {"sum": MPI.SUM, "max": MPI.MAX, "min": MPI.MIN, "prod": MPI.PROD, "any": MPI.LOR, "all": MPI.LAND}[nm]
        tot = r.allreduce() if (nm == "sum" and plan[3]) else r.allreduce(op)
        exp = getattr(g, nm)()
        if np.asarray(tot).dtype != exp.dtype or not self.close(np.asarray(tot), np.asarray(exp), max(scale, abs(complex(exp)) if np.isfinite(exp) else 1) * max(g.size, 1)):
            raise Violation("wrong-data", f"{what}: {nm} over all ranks is {tot!r} on rank {rank}/{size}, expected {exp!r} (local {exp_l!r})")

    def refuse(self, plan, V, state, size, rank, comm, world, what):
        """Operations that need communication must fail on every rank, and change nothing."""
        MPIArray = self.mod.MPIArray
        _, nm, i, c, d = plan
        g, ax = state[i]
        x = V[i]
        L = g.shape[ax]
        lens = {R.share(L, size, r)[0] for r in range(size)} | {1}
        wrong = next(v for v in range(2, 100) if v not in lens)
        try:
            if nm == "otheraxis":
                # same global shape, distributed over another axis
                ax2 = (ax + 1 + c % (g.ndim - 1)) % g.ndim
                y = MPIArray(tuple(g.shape), axis=ax2, comm=comm, dtype=g.dtype)
                y[:] = 1
                r = np.add(x, y) if d % 2 else np.add(y, x)
            elif nm == "reduce_dist":
                form = d % 5
                a = [ax, ax - g.ndim, (ax,), tuple(range(g.ndim)), (ax - g.ndim,)][form]
                r = x.sum(axis=a, keepdims=bool(c % 2)) if c % 3 else np.maximum.reduce(x, axis=a)
            elif nm == "acc_dist":
                r = np.add.accumulate(x, axis=ax if d % 2 else ax - g.ndim)
            elif nm == "cumsum_dist":
                r = np.cumsum(x, axis=ax if d % 2 else ax - g.ndim)
            elif nm == "where":
                mask = np.ones(x.shape, bool)
                if mask.size:
                    mask.flat[0] = False
                r = np.add(x, 1, where=mask) if d % 2 else x.sum(axis=None, where=mask)
            elif nm == "nparr":
                shp = list(g.shape[ax:])
                shp[0] = wrong
                y = np.ones(shp)
                r = x + y if d % 2 else np.multiply(y, x)
            elif nm == "outer":
                r = np.multiply.outer(x, x)
            elif nm == "at":
                r = np.add.at(x, (0,), 1)
            elif nm == "inplace_np":
                y = np.ones((1,) + tuple(x.shape))
                y += x
                r = y
            elif nm == "outnp":
                r = np.add(x, 1.0, out=np.ones(x.shape))
            elif nm == "outbad":
                y = MPIArray((*g.shape[:ax], L + size, *g.shape[ax + 1 :]), axis=ax, comm=comm, dtype="c16")
                r = np.add(x, 1.0, out=y)
            elif nm == "othercomm":
                sub = self.tools.MPI.COMM_SELF
                y = MPIArray.wrap(np.ones(tuple(x.shape)), ax, comm=sub)
                r = np.add(x, y)
        except (ValueError, TypeError, OverflowError):
            return
        raise Violation("not-refused", f"{what}: rank {rank}/{size} returned {type(r).__name__} "
                        f"{getattr(r, 'global_shape', getattr(r, 'shape', None))} for shape {g.shape} over axis {ax}")

    def shrink(self, program):
        yield from super().shrink(program)
        if program["comm"] != "world":
            yield dict(program, comm="world")
        for j, v in enumerate(program["vars"]):
            if v[2] != "f8":
                vs = [list(x) for x in program["vars"]]
                vs[j][2] = "f8"
                yield dict(program, vars=vs)

    def describe(self, program):
        return {k: program[k] for k in ("n", "base", "axis", "vars", "ops")}


PROP = P()
