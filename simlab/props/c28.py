"""C28: precision truncation of datasets spread over several processes."""

import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import warnings

import numpy as np

from .. import bootstrap, harness, models
from ..sched import Violation

R = models
AXN = ["freq", "prod", "time"]


def build(repo):
    """Compile the truncation kernels of the current tree (without threads) and import them."""
    d = tempfile.mkdtemp(prefix="simlab-build-")
    try:
        src = os.path.join(repo, "caput", "util")
        for f in os.listdir(src):
            if f.endswith((".pyx", ".hpp", ".h", ".pxd")):
                shutil.copy(os.path.join(src, f), d)
        run = dict(cwd=d, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.run([sys.executable, "-m", "cython", "-3", "truncate.pyx"], **run)
        so = os.path.join(d, "truncate" + sysconfig.get_config_var("EXT_SUFFIX"))
        subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-fno-math-errno", "-fno-trapping-math", "-I" + sysconfig.get_path("include"), "-I" + np.get_include(),
                        "truncate.c", "-o", so, "-lm"], **run)
        loader = importlib.machinery.ExtensionFileLoader("caput.util.truncate", so)
        mod = importlib.util.module_from_spec(importlib.util.spec_from_file_location("caput.util.truncate", so, loader=loader))
        loader.exec_module(mod)
        return mod
    finally:
        shutil.rmtree(d, ignore_errors=True)


class P(harness.Prop):
    id = "C28"
    title = "Truncating data loses no more than the allowed precision, however the data are distributed"
    rule = (
        "a run = a container class with 1 to 4 datasets (presets, weights with fewer or permuted axes) on 1..6 ranks, each dataset and weight common or distributed over any axis, "
        "truncated once or twice; every element checked against the error its precision or weight allows and the coarseness it implies, everything else bit for bit"
    )
    real = ("caput.pipeline.tasklib.io.Truncate", "caput.util.truncate (compiled from the tree, threads off)", "caput.containers", "caput.mpiarray")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 6000
    thorough_runs = 150000
    assumptions = ("weights are finite and not negative", "weight and data have the same precision")

    def load(self):
        import caput.util
        from caput import containers
        from caput.pipeline.tasklib import io
        from caput.util import mpitools

        mod = build(bootstrap.REPO)
        sys.modules["caput.util.truncate"] = mod
        caput.util.truncate = mod
        self.ct, self.io, self.mt = containers, io, mpitools

    # -- programs ------------------------------------------------------------------
    def generate(self, rng, i):
        n = R.gen_n(rng)
        # equal lengths now and then: a wrong axis then goes unnoticed by shapes
        ln = {a: rng.choice([1, 2, 3, 3, 4, 5, 7]) for a in AXN}
        if rng.random() < 0.4:
            ln = dict.fromkeys(AXN, rng.choice([2, 3, 4, 6]))
        sets = {}
        for k in range(rng.randrange(1, 5)):
            axes = rng.sample(AXN, rng.choice([1, 2, 2, 3]))
            single = rng.random() < 0.5
            dt = rng.choice(["f4", "f4", "c8", "c8", "i4"] if single else ["f8", "f8", "c16", "c16", "i8"])
            d = {"axes": axes, "dtype": dt, "dist": rng.random() < 0.8, "ax": rng.randrange(len(axes)), "preset": None, "conf": None, "w": None,
                 "chunks": [rng.randrange(1, 6) for _ in axes] if rng.random() < 0.4 else None, "redist": rng.choice([None, None, rng.randrange(3)]), "forder": rng.random() < 0.2}
            if dt[0] != "i":
                if rng.random() < 0.6:
                    waxes = [a for a in axes if rng.random() < 0.7]
                    if rng.random() < 0.3:
                        rng.shuffle(waxes)
                    if waxes:
                        d["w"] = {"axes": waxes, "dist": rng.random() < 0.7, "ax": rng.randrange(len(waxes)), "redist": rng.choice([None, None, rng.randrange(3)]),
                                  "zero": rng.choice([0, 0.2, 0.5]), "prop": rng.random() < 0.4}
                par = {}
                if rng.random() < 0.7:
                    par["fixed_precision"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-4, 0.25])
                if rng.random() < 0.7:
                    par["variance_increase"] = rng.choice([1e-1, 1e-2, 1e-3, 1e-5])
                if d["w"]:
                    par["weight_dataset"] = "W"
                where = rng.choice(["preset", "conf", "conf", "both"])
                val = rng.choice([True, 0.01, 1e-3, par, par, par]) if not d["w"] else par
                if where in ("preset", "both"):
                    d["preset"] = val or True
                if where in ("conf", "both"):
                    d["conf"] = val
                if where == "both":
                    d["preset"] = rng.choice([False, True, 0.1])
                if rng.random() < 0.12:
                    d["conf"] = False
            sets[f"d{k}"] = d
        return {"n": n, "len": ln, "sets": sets, "salt": rng.randrange(1000), "scale": rng.choice([1, 1, 1e-4, 1e5]), "times": rng.choice([1, 1, 1, 2]),
                "none": rng.random() < 0.1, "comm": rng.choice(["world", "world", "split", "reverse"]), "chunked": rng.random() < 0.7, "env": harness.gen_env(rng)}

    def directed(self):
        env = dict(harness.QUIET)
        out = []
        for wd, wax in ((True, ["freq", "time"]), (False, ["freq", "time"]), (True, ["time", "freq"]), (False, ["time"]), (True, ["time"])):
            for ax in (0, 2):
                d = {"axes": ["freq", "prod", "time"], "dtype": "c8", "dist": True, "ax": ax, "preset": None, "chunks": None, "redist": None, "forder": False,
                     "conf": {"weight_dataset": "W", "variance_increase": 1e-2, "fixed_precision": 1e-2}, "w": {"axes": wax, "dist": wd, "ax": 0, "redist": None, "zero": 0.3, "prop": False}}
                out.append({"n": 2, "len": {"freq": 4, "prod": 2, "time": 4}, "sets": {"d0": d}, "salt": 3, "scale": 1, "times": 1, "none": False, "comm": "world", "chunked": True, "env": env})
        return out

    # -- the classes and values of a program ---------------------------------------------
    def params(self, p, d, nm):
        """None, or (weight name or None, precision, variance increase)"""
        v = d["conf"] if d["conf"] is not None and not p["none"] else d["preset"]
        if v is None or v is False:
            return None
        base = {"weight_dataset": None, "fixed_precision": 1e-4, "variance_increase": 1e-3}
        if isinstance(v, dict):
            base.update(v)
        elif v is not True:
            base["fixed_precision"] = v
        return base

    def given(self, v, nm, d):
        if not isinstance(v, dict):
            return v
        v = dict(v)
        if v.get("weight_dataset"):
            v["weight_dataset"] = ("p" if d["w"]["prop"] else "w") + nm
        return v

    def execute(self, p, ctx):
        if not p["sets"]:
            return
        spec, props = {}, {}
        for nm, d in p["sets"].items():
            s = {"axes": list(d["axes"]), "dtype": R.dtype_of(d["dtype"]), "initialise": True, "distributed": d["dist"], "distributed_axis": d["axes"][d["ax"] % len(d["axes"])]}
            if d["preset"] is not None:
                s["truncate"] = self.given(d["preset"], nm, d)
            if d["chunks"]:
                s["chunks"] = tuple(d["chunks"])
            spec[nm] = s
            if d["w"]:
                w = d["w"]
                spec["w" + nm] = {"axes": list(w["axes"]), "dtype": s["dtype"].type(0).real.dtype, "initialise": True, "distributed": w["dist"], "distributed_axis": w["axes"][w["ax"] % len(w["axes"])]}
                if w["prop"]:
                    props["p" + nm] = property(lambda self, k="w" + nm: self[k])
        cls = type("TruncCont", (self.ct.ContainerPrototype,), {"_axes": tuple(AXN), "_dataset_spec": spec, "__module__": __name__, **props})
        full = {}
        for k, (nm, s) in enumerate(spec.items()):
            shape = [p["len"][a] for a in s["axes"]]
            rng = np.random.default_rng([p["salt"], k])
            if nm[0] == "w":
                x = 10.0 ** rng.uniform(-2, 3, shape) / p["scale"] ** 2
                x[rng.random(shape) < p["sets"][nm[1:]]["w"]["zero"]] = 0
            else:
                x = rng.normal(size=shape) * 10.0 ** rng.uniform(-2, 2, shape) * p["scale"]
                if s["dtype"].kind == "c":
                    x = x + 1j * rng.normal(size=shape) * 10.0 ** rng.uniform(-2, 2, shape) * p["scale"]
                x[rng.random(shape) < 0.1] = 0
            full[nm] = x.astype(s["dtype"])
        conf = {nm: self.given(d["conf"], nm, d) for nm, d in p["sets"].items() if d["conf"] is not None}
        tconf = {"ensure_chunked": p["chunked"]}
        if not p["none"]:
            tconf["dataset"] = conf
        want = {nm: self.params(p, d, nm) for nm, d in p["sets"].items()}

        def rank_main(wr):
            comm = self.mt.MPI.COMM_WORLD
            if p["comm"] == "split":
                comm = comm.Split(wr % 2, wr)
            elif p["comm"] == "reverse":
                comm = comm.Split(0, -wr)
            cont = cls(**p["len"], comm=comm, distributed=True)

            def part(nm, x):
                d = cont[nm]
                if not d.distributed:
                    return x
                k = d.distributed_axis
                sl = [slice(None)] * x.ndim
                sl[k] = slice(d.local_offset[k], d.local_offset[k] + d.local_shape[k])
                return x[tuple(sl)]

            for nm, s in spec.items():
                src = p["sets"][nm[1:]]["w"] if nm[0] == "w" else p["sets"][nm]
                if s["distributed"] and src["redist"] is not None:
                    cont[nm].redistribute(src["redist"] % len(s["axes"]))
                if not s["distributed"] and src.get("forder") and cont[nm]._data.flags.writeable:
                    cont[nm]._data = np.asfortranarray(cont[nm]._data)
                cont[nm][:] = part(nm, full[nm])
                cont[nm].attrs["mark"] = nm
            cont.attrs["tag"] = "x"
            where = {nm: (cont[nm].distributed, cont[nm].distributed_axis if cont[nm].distributed else None) for nm in spec}
            task = self.io.Truncate._from_config(tconf)
            for _ in range(p["times"]):
                out = task.process(cont)
                if out is not cont:
                    raise Violation("not-in-place", "the truncated container is not the one given")
            what = f"rank {comm.rank} of {comm.size}"
            if set(cont.keys()) - {"index_map", "reverse_map"} != set(spec) or cont.attrs["tag"] != "x":
                raise Violation("changed", f"{what}: the container holds {sorted(cont.keys())} with attributes {dict(cont.attrs)}")
            for nm, s in spec.items():
                now = (cont[nm].distributed, cont[nm].distributed_axis if cont[nm].distributed else None)
                if now != where[nm] or cont[nm].attrs["mark"] != nm:
                    raise Violation("changed", f"{what}: {nm} was distributed (over) {where[nm]}, now {now}, attributes {dict(cont[nm].attrs)}")
                got = np.array(cont[nm][:].view(np.ndarray))
                old = part(nm, full[nm])
                q = want.get(nm)
                if q is None:
                    if not R.same(got, old):
                        raise Violation("not-to-be-truncated", f"{what}: {nm} {R.describe_diff(got, old)}")
                    continue
                w = None
                if q["weight_dataset"]:
                    wa = spec["w" + nm]["axes"]
                    w = full["w" + nm].astype("f8")
                    w = np.transpose(w, sorted(range(w.ndim), key=lambda k: s["axes"].index(wa[k])))
                    w = w[tuple(slice(None) if a in wa else np.newaxis for a in s["axes"])]
                    w = part(nm, np.broadcast_to(w, full[nm].shape)) * (2 if s["dtype"].kind == "c" else 1)
                    w = w / (3 * q["variance_increase"])
                self.judge(got, old, w, q["fixed_precision"], p["times"], f"{what}: {nm} {s['axes']} {s['dtype']} distributed (over) {now} of {p['len']}, weights {wa if w is not None else None}")
                ctx.probe("weighted" if w is not None else "fixed")
            return None

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run = ctx.simulate(p["n"], rank_main, p["env"])
        ctx.require_clean(run, f"truncating {sorted(spec)}")
        harness.require_no_leftovers(run)

    def judge(self, got, old, w, prec, times, what):
        if got.dtype != old.dtype or got.shape != old.shape:
            raise Violation("wrong-type", f"{what} became {got.dtype}{got.shape}")
        pairs = [(got, old)] if old.dtype.kind == "f" else [(got.real, old.real), (got.imag, old.imag)]
        for g, o in pairs:
            g, o = g.astype("f8"), o.astype("f8")
            err = prec * np.abs(o)
            if w is not None:
                with np.errstate(divide="ignore"):
                    err = np.where(w > 0, 1 / np.sqrt(w), err)
            slack = times * 1.001
            bad = ~(np.abs(g - o) <= err * slack)
            if bad.any():
                k = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation("lost-precision", f"{what}: element {k} was {o[k]!r}, is {g[k]!r}, allowed error {err[k]:.6g}")
            # coarse enough for compression: a multiple of the power of two at or below the error
            # (a relative error may shrink in a second pass)
            e = err * 0.99 if times == 1 or w is not None else np.minimum(err, prec * np.abs(g)) * 0.99
            ok = (e <= 0) | (g == 0)
            step = 2.0 ** np.floor(np.log2(np.where(ok, 1.0, e)))
            bad = ~(ok | (np.mod(g, step) == 0))
            if bad.any():
                k = tuple(int(x) for x in np.argwhere(bad)[0])
                raise Violation("not-truncated", f"{what}: element {k} was {o[k]!r}, is {g[k]!r}, which is no multiple of {step[k]!r} (allowed error {err[k]:.6g})")


PROP = P()
