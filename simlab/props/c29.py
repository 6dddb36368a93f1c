"""C29: Fourier transforms with reused FFT objects, alone and on distributed arrays."""

import os

import numpy as np

from .. import harness, models
from ..sched import Violation, active

R = models
LAYOUTS = ["aligned", "aligned", "plain", "unaligned", "forder", "forder-aligned", "strided-aligned", "strided", "reversed", "readonly"]


class P(harness.Prop):
    id = "C29"
    title = "Fourier transforms do not depend on what was transformed before, on the number of CPUs or on the number of processes"
    rule = (
        "a run = several FFT objects on 1..6 ranks with seeded CPU counts, a history of up to 12 transforms, convolutions and windows of new, reused and returned arrays in any memory layout, "
        "and transforms of distributed arrays axis by axis; every result compared with numpy and everything handed over or returned before compared with its copy after every step"
    )
    real = ("caput.algorithms.fft", "caput.algorithms.fft.fftw", "pyfftw", "caput.mpiarray", "caput.util.mpitools.cpu_count")
    stub = ("mpi4py (simulated network)", "clock", "the number of CPUs of the node")
    quick_runs = 6000
    thorough_runs = 150000
    assumptions = ("results are compared within rounding, scaled to the largest element", "one object is used by one thread at a time")

    def load(self):
        from caput import mpiarray
        from caput.algorithms import fft
        from caput.algorithms.fft import fftw

        from caput.util import mpitools

        self.ma, self.fft, self.fftw, self.mt = mpiarray, fft, fftw, mpitools

    # -- programs ------------------------------------------------------------------
    def gen_obj(self, rng):
        nd = rng.choice([1, 2, 2, 3])
        shape = [rng.choice([1, 2, 3, 4, 5, 7, 8]) for _ in range(nd)]
        axes = rng.choice([None, "int", "list"])
        if axes == "int":
            axes = rng.randrange(-nd, nd)
        elif axes == "list":
            axes = [a - nd * rng.randrange(2) for a in rng.sample(range(nd), rng.randrange(1, nd + 1))]
        way = rng.choice(["both", "both", "both", "both", "forward", "backward"])
        return {"shape": shape, "dtype": rng.choice(["c16", "c16", "c8"]), "axes": axes, "way": way}

    def gen_in(self, rng, k):
        """Where an input comes from."""
        if k and rng.random() < 0.4:
            return {"from": rng.choice(["given", "result"]), "k": rng.randrange(k), "lay": rng.choice([None, None, "forder-aligned", "strided", "unaligned"])}
        return {"from": "new", "lay": rng.choice(LAYOUTS), "wrong": rng.choice(["dtype", "real", "shape"]) if rng.random() < 0.08 else None}

    def generate(self, rng, i):
        objs = [self.gen_obj(rng) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.5:
            # same shape with other axes or directions: arrays are passed on from one to the next
            for o in objs[1:]:
                if len(o["shape"]) == len(objs[0]["shape"]):
                    o["shape"], o["dtype"] = list(objs[0]["shape"]), objs[0]["dtype"]
        ops = []
        for k in range(rng.randrange(2, 13)):
            kind = rng.choice(["fft", "fft", "fft", "ifft", "ifft", "conv", "window", "touch", "dist", "scipy"])
            op = {"op": kind, "o": rng.randrange(len(objs)), "in": self.gen_in(rng, k), "fn": rng.random() < 0.2}
            if kind == "conv":
                op["in2"] = self.gen_in(rng, k)
            elif kind == "window":
                op["win"] = rng.choice(["real", "complex", "broadcast"])
            elif kind == "dist":
                op.update(shape=[rng.choice([1, 2, 3, 5, 6]) for _ in range(rng.choice([2, 2, 3]))], ax=rng.randrange(3), to=rng.randrange(3), inv=rng.random() < 0.5,
                          keep=rng.random() < 0.5)
            elif kind == "scipy":
                op.update(name=rng.choice(["fft", "ifft", "fftn", "rfft", "irfft", "fftfreq", "fftshift", "next_fast_len", "dct"]), workers=rng.choice([None, None, 1, 2]))
            elif kind == "touch":
                op.update(which=rng.choice(["given", "result"]), k=rng.randrange(k + 1))
            ops.append(op)
        # the same arrays once more, changed in place in between
        for _ in range(rng.choice([0, 0, 1, 2])):
            j = rng.randrange(len(ops))
            if ops[j]["op"] in ("fft", "ifft", "conv", "window"):
                if rng.random() < 0.7:
                    ops.append({"op": "touch", "o": 0, "in": None, "fn": False, "which": "step", "k": j, "slot": rng.choice([0, 1, 2])})
                again = dict(ops[j], again=j)
                ops.append(again)
        return {"n": R.gen_n(rng), "cpus": rng.choice([1, 1, 1, 2, 3, 8]), "nodes": rng.choice([1, 1, 2]), "objs": objs, "ops": ops, "salt": rng.randrange(1000), "env": harness.gen_env(rng)}

    def directed(self):
        env = dict(harness.QUIET)
        out = []
        for lay in ("forder", "forder-aligned", "unaligned", "strided", "strided-aligned"):
            for way in ("fft", "ifft"):
                ops = [{"op": way, "o": 0, "in": {"from": "new", "lay": "aligned", "wrong": None}, "fn": False}, {"op": way, "o": 0, "in": {"from": "new", "lay": lay, "wrong": None}, "fn": False}]
                out.append({"n": 1, "cpus": 1, "nodes": 1, "objs": [{"shape": [4, 6], "dtype": "c16", "axes": 0, "way": "both"}], "ops": ops, "salt": 1, "env": env})
        return out

    # -- arrays --------------------------------------------------------------------
    def lay_out(self, x, lay):
        x = np.array(x)
        if lay == "aligned":
            return self.fftw.pyfftw.byte_align(x)
        if lay == "unaligned":
            buf = np.zeros(x.nbytes + 128, np.uint8)
            off = (-buf.ctypes.data) % 64 + 16
            y = buf[off : off + x.nbytes].view(x.dtype).reshape(x.shape)
            y[...] = x
            return y
        if lay == "forder":
            return np.asfortranarray(x)
        if lay == "forder-aligned":
            y = self.fftw.pyfftw.empty_aligned(x.shape[::-1], x.dtype).T
            y[...] = x
            return y
        if lay == "strided-aligned":
            y = self.fftw.pyfftw.empty_aligned((x.shape[0] * 2,) + x.shape[1:], x.dtype)[::2]
            y[...] = x
            return y
        if lay == "strided":
            y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)[..., ::2]
            y[...] = x
            return y
        if lay == "reversed":
            return np.ascontiguousarray(x[::-1])[::-1]
        if lay == "readonly":
            x = self.fftw.pyfftw.byte_align(x)
            x.flags.writeable = False
        return x

    @staticmethod
    def ref(kind, x, axes):
        """The transform of x by numpy, in double precision, and how far off a result may be."""
        x = np.asarray(x).astype("c16")
        if axes is None:
            axes = tuple(range(x.ndim))
        axes = (axes,) if isinstance(axes, int) else tuple(axes)
        return (np.fft.fftn if kind == "fft" else np.fft.ifftn)(x, axes=axes)

    def close(self, got, want, dt, what, scale=None):
        got = np.asarray(got)
        if got.shape != want.shape or (dt is not None and got.dtype != dt):
            raise Violation("wrong-type", f"{what} gave {got.dtype}{got.shape}, expected {dt}{want.shape}")
        eps = 2e-4 if got.dtype in (np.dtype("c8"), np.dtype("f4")) else 1e-9
        tol = eps * max(float(np.abs(want).max(initial=0)), scale or 0, 1e-300)
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation("wrong-transform", f"{what}: element {k} is {got[k]!r}, should be {want[k]!r}")

    def fresh(self, p, k, r, j, shape, dt):
        g = np.random.default_rng([p["salt"], k, r, j])
        return (g.normal(size=shape) + 1j * g.normal(size=shape)).astype(dt)

    def execute(self, p, ctx):
        if not p["objs"]:
            return
        nodes = [r % p["nodes"] for r in range(p["n"])]

        def rank_main(r):
            objs = []
            for o in p["objs"]:
                axes = o["axes"] if not isinstance(o["axes"], list) else tuple(o["axes"])
                obj = self.fftw.FFTW(tuple(o["shape"]), R.dtype_of(o["dtype"]), axes=axes, forward=o["way"] != "backward", backward=o["way"] != "forward")
                if obj.params["shape"] != tuple(o["shape"]) or obj.params["dtype"] != R.dtype_of(o["dtype"]):
                    raise Violation("wrong-params", f"an object for {o} says {obj.params}")
                if not 1 <= obj.params["ncpu"] <= p["cpus"]:
                    raise Violation("wrong-params", f"{obj.params['ncpu']} CPUs used of {p['cpus']}")
                objs.append(obj)
            try:
                self.fftw.FFTW((3,), np.float64)
            except TypeError:
                pass
            else:
                raise Violation("accepted", "an object for real numbers was created")
            held = {"given": [], "result": []}  # (array, copy, the step) of everything that belongs to us

            def hold(kind, a, k):
                held[kind].append([a, np.array(a), k])
                return a

            def check(k, what):
                for kind, rows in held.items():
                    for a, c, j in rows:
                        if not R.same(np.asarray(a), c):
                            raise Violation("overwritten", f"rank {r} step {k} {what}: the array {kind} at step {j} was changed: {R.describe_diff(np.asarray(a), c)}")

            def take(spec, k, j, shape, dt):
                if spec["from"] != "new":
                    rows = [a for a, c, s in held[spec["from"]] if a.shape == shape and a.dtype == dt]
                    if rows:
                        a = rows[spec["k"] % len(rows)]
                        return hold("given", self.lay_out(a, spec["lay"]), k) if spec["lay"] else a
                    return hold("given", self.lay_out(self.fresh(p, k, r, j, shape, dt), "aligned"), k)
                wrong = spec["wrong"]
                if wrong == "shape":
                    shape = shape[:-1] + (shape[-1] + 1,)
                x = self.fresh(p, k, r, j, shape, dt)
                if wrong == "dtype":
                    x = x.astype("c8" if dt == np.dtype("c16") else "c16")
                elif wrong == "real":
                    x = x.real.copy()
                return hold("given", self.lay_out(x, spec["lay"]), k)

            args = {}  # the arrays used at each step
            for k, op in enumerate(p["ops"]):
                sp, obj = p["objs"][op["o"] % len(objs)], objs[op["o"] % len(objs)]
                axes = sp["axes"] if not isinstance(sp["axes"], list) else tuple(sp["axes"])
                shape, dt = tuple(sp["shape"]), R.dtype_of(sp["dtype"])
                kind = op["op"]
                what = f"{kind} of {op['in']} with {sp}"
                if kind == "touch":
                    rows = held[op["which"]] if op["which"] != "step" else [o for o in held["given"] + held["result"] if o[0] is args.get((op["k"], op["slot"]))]
                    if rows:
                        row = rows[op["k"] % len(rows)]
                        if row[0].flags.writeable:
                            # everything else must stay as it is, but for views of the same memory
                            if any(o is not row and o[0] is not row[0] and np.shares_memory(o[0], row[0]) for q in held.values() for o in q):
                                raise Violation("shared", f"rank {r} step {k}: the array of step {row[2]} shares memory with another")
                            row[0][...] += 1
                            for q in held.values():
                                for o in q:
                                    if o[0] is row[0]:
                                        o[1] = np.array(o[0])
                elif kind in ("fft", "ifft", "conv", "window"):
                    old = op.get("again", -1)
                    x = args[old, 0] if (old, 0) in args else take(op["in"], k, 0, shape, dt)
                    args[k, 0] = x
                    before = np.array(x)
                    refused = x.shape != shape or x.dtype != dt
                    if kind == "conv":
                        y = args[old, 1] if (old, 1) in args else take(op["in2"], k, 1, shape, dt)
                        args[k, 1] = y
                        y0 = np.array(y)
                        refused = refused or y.shape != shape or y.dtype != dt
                    elif kind == "window":
                        wsh = shape if op["win"] != "broadcast" else shape[-1:]
                        if (old, 2) in args:
                            w = args[old, 2]
                        else:
                            w = self.fresh(p, k, r, 2, wsh, dt)
                            w = hold("given", w if op["win"] == "complex" else w.real.copy(), k)
                        args[k, 2] = w
                    fn = op["fn"] and not refused
                    lack = not fn and sp["way"] in {"fft": ("backward",), "ifft": ("forward",)}.get(kind, ("forward", "backward"))
                    t = self.fftw if fn else obj
                    kw = {"axes": axes} if fn else {}
                    try:
                        if kind in ("fft", "ifft"):
                            got = getattr(t, kind)(x, **kw)
                        elif kind == "conv":
                            got = t.fftconvolve(x, y, **kw)
                        else:
                            got = t.fftwindow(x, w, **kw)
                    except RuntimeError:
                        if not lack:
                            raise
                        ctx.probe("no-such-direction")
                        got = None
                    except (ValueError, TypeError):
                        if not refused:
                            raise
                        ctx.probe("refused-input")
                        got = None
                    else:
                        if lack:
                            raise Violation("accepted", f"rank {r} step {k}: {what} worked")
                    if got is not None:
                        if before.shape == shape and kind in ("fft", "ifft"):
                            self.close(got, self.ref(kind, before, axes), None if refused else dt, f"rank {r} step {k} {what}", float(np.abs(before).sum()))
                        elif not refused:
                            X = self.ref("fft", before, axes) * (self.ref("fft", y0, axes) if kind == "conv" else w)
                            self.close(got, self.ref("ifft", X, axes), dt, f"rank {r} step {k} {what}", float(np.abs(X).max()))
                        for q in held.values():
                            for o in q:
                                if np.shares_memory(o[0], got):
                                    raise Violation("shared", f"rank {r} step {k} {what}: the result shares memory with the array of step {o[2]}")
                        hold("result", got, k)
                        ctx.probe(kind + ("-function" if fn else ""))
                elif kind == "dist":
                    self.dist(p, k, op, ctx, r)
                else:
                    self.scipy_op(p, k, op, ctx, r)
                check(k, what)
            return None

        real_cc = os.cpu_count
        os.cpu_count = lambda: p["cpus"] if active() is not None else real_cc()
        try:
            run = ctx.simulate(p["n"], rank_main, p["env"], node_of=nodes)
        finally:
            os.cpu_count = real_cc
        ctx.require_clean(run, "Fourier transforms")
        harness.require_no_leftovers(run)

    def dist(self, p, k, op, ctx, r):
        """A transform over all axes of a distributed array, one axis after the other."""
        shape = tuple(op["shape"])
        full = self.fresh(p, k, 0, 7, shape, "c16")
        world = self.mt.MPI.COMM_WORLD
        a = self.ma.MPIArray.wrap(self._part(full, op["ax"] % len(shape), world), axis=op["ax"] % len(shape), comm=world)
        axes = [(op["to"] + j) % len(shape) for j in range(len(shape))]
        src = a
        for ax in axes:
            if a.axis == ax:
                a = a.redistribute((ax + 1) % len(shape))
            f = self.fftw.FFTW(a.local_array.shape, a.dtype, axes=ax)
            b = self.ma.MPIArray(shape, axis=a.axis, comm=world, dtype=np.complex128)
            b[:] = (f.ifft if op["inv"] else f.fft)(a.local_array)
            a = b
        want = self.ref("ifft" if op["inv"] else "fft", full, None)
        self.close(a.local_array, self._part(want, a.axis, world), np.dtype("c16"), f"rank {r} step {k}: transform over {axes} of {shape} on {world.size} ranks", float(np.abs(full).sum()))
        if not R.same(np.array(src.local_array), self._part(full, src.axis, world)):
            raise Violation("overwritten", f"rank {r} step {k}: the distributed array was changed by its transform")
        ctx.probe("distributed")

    def _part(self, x, ax, comm):
        return np.array(R.local_part(x, ax, comm.size, comm.rank))

    def scipy_op(self, p, k, op, ctx, r):
        nm = op["name"]
        x = self.fresh(p, k, r, 9, (4, 6), "c16")
        kw = {"workers": op["workers"]} if op["workers"] and nm not in ("fftfreq", "fftshift", "next_fast_len") else {}
        f = getattr(self.fft, nm)
        if nm in ("rfft", "dct"):
            x = x.real.copy()
        x0 = x.copy()
        if nm in ("fftfreq", "next_fast_len"):
            got = np.asarray(f(12))
            want = np.fft.fftfreq(12) if nm == "fftfreq" else np.asarray(12)
        else:
            got = np.asarray(f(x, **kw))
            if nm == "dct":
                N, n = np.meshgrid(np.arange(6), np.arange(6))
                want = 2 * x @ np.cos(np.pi * (2 * n + 1) * N / 12)
            else:
                want = getattr(np.fft, nm)(x)
        self.close(got, np.asarray(want), None, f"rank {r} step {k}: {nm}", 1.0)
        if not R.same(x, x0):
            raise Violation("overwritten", f"rank {r} step {k}: {nm} changed its input")
        ctx.probe("scipy")


PROP = P()
