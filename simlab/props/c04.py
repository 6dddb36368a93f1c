"""C04: trees and arrays saved by some ranks and loaded by others, over a simulated shared filesystem."""

import os
import warnings

import numpy as np

from .. import fs as F
from .. import harness, models
from ..sched import Violation

R = models
H5T = ["f8", "f4", "i4", "i8", "c16", "c8", "u1", "i2", "?", "S5", "rec", "recs"]
ATTRS = [3, -7, 2.5, True, "hello", "µ-unit é", "", ["a", "bcd"], [1, 2, 3], {"a": 1, "b": {"c": [1.5, "x"]}}, {}, ["only"],
         ["@", "i8", [4, 5, 6]], ["@", "f8", [0.5, -1.5]], [1.25, 2.5], 2**40, "!!not json", [[1, 2], [3, 4]],
         ["@", "U4", ["chan"]], ["@", "i8", [5]], ["@", "U5", ["chan", "time"]], {"a": ["@", "i4", 3], "b": ["@", "f4", 0.5]}]


def dt_of(name):
    if name == "recs":
        return np.dtype([("a", "f8"), ("s", "S4")])
    return R.dtype_of(name)


def make(shape, name, salt):
    dt = dt_of(name)
    if name == "recs":
        a = np.zeros(shape, dt)
        v = R.make(shape, "i8", salt)
        a["a"] = v * 0.5
        a["s"] = (v % 1000).astype("S4")
        return a
    if name.startswith(">"):
        return R.make(shape, name[1:], salt).astype(dt)
    return R.make(shape, dt, salt)


def attr_value(v):
    if isinstance(v, list) and v and v[0] == "@":
        return np.array(v[2], dtype=v[1])[()]
    if isinstance(v, dict):
        return {k: attr_value(x) for k, x in v.items()}
    return v


def norm(v):
    """An attribute's value, whatever type the file format gives it."""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    return v


def dec_sel(s):
    if s is None:
        return None
    if s and s[0] == "bare":
        return slice(*s[1])
    return tuple(slice(*e[1]) if e[0] == "s" else list(e[1]) for e in s)


def native(a):
    a = np.asarray(a)
    return a.astype(a.dtype.newbyteorder("="))


class P(harness.Prop):
    id = "C04"
    title = "Distributed data written to disk reads back identically on any process count"
    rule = (
        "a run = a tree (or set of arrays) saved by 1..6 simulated ranks to HDF5 or zarr through MemGroup, MemDiskGroup or "
        "MPIArray, read raw by every rank as its save returns, then loaded by 1..6 other ranks in up to three modes with axis "
        "selections; every dataset, dtype and attribute compared with the original"
    )
    real = ("caput.mpiarray", "caput.memdata", "caput.util.mpitools", "h5py (serial)", "zarr", "numcodecs")
    stub = ("mpi4py (simulated network)", "clock", "shared filesystem visibility and HDF5/zarr inter-process locks", "parallel HDF5 (not installed: the serial fallback is what runs)")
    quick_runs = 6000
    thorough_runs = 400000
    assumptions = (
        "HDF5 without MPI support (the build installed here); zarr 2 directory stores",
        "index-list selections on HDF5 only, increasing, one per dataset (what the libraries support)",
    )

    def load(self):
        import caput.memdata as md
        from caput import mpiarray
        from caput.memdata import fileformats
        from caput.util import mpitools

        self.md = md
        self.ma = mpiarray
        self.ff = fileformats
        self.tools = mpitools
        warnings.simplefilter("ignore")

    # -- programs ---------------------------------------------------------------
    def gen_attrs(self, rng, hi=4):
        return {f"a{k}": rng.choice(ATTRS) for k in range(rng.randrange(hi))}

    def gen_sel(self, rng, shape, fmt):
        if rng.random() < 0.12:
            return ["bare", self.gen_slice(rng, shape[0])]
        out = []
        lst = False
        for L in shape[: rng.randrange(1, len(shape) + 1)]:
            r = rng.random()
            if r < 0.25 and fmt == "h5" and not lst and L:
                k = rng.randrange(1, min(L, 5) + 1)
                out.append(["l", sorted(rng.sample(range(L), k))])
                lst = True
            elif r < 0.4:
                out.append(["s", [None, None, None]])
            else:
                out.append(["s", self.gen_slice(rng, L)])
        return out

    def gen_slice(self, rng, L):
        def b():
            return rng.choice([None, None, 0, 1, L, L // 2, L - 1, L + 3, -1, -L, -L - 2, rng.randrange(0, L + 1)])

        return [b(), b(), rng.choice([None, None, None, 1, 2, 3])]

    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 4, 5, 6])
        r = rng.choice([1, 1, 2, 3, 4, 5, 6, n])
        fmt = rng.choice(["h5", "h5", "zarr"])
        api = rng.choice(["tree", "tree", "disk", "array"])
        comm = "split" if n > 1 and api != "disk" and rng.random() < 0.15 else "world"
        serial = api != "array" and rng.random() < 0.08
        groups = [g for g in ("g", "g/sub", "h") if rng.random() < 0.5]
        if "g/sub" in groups and "g" not in groups:
            groups.insert(0, "g")
        dsets = []
        wconv = rng.random() < 0.3 and api != "array"
        for k in range(rng.randrange(1, 5)):
            dist = api == "array" or (not serial and rng.random() < 0.65)
            shape = R.gen_shape(rng, n, nmax=3, zero_p=0.04)
            while np.prod(shape) > 400:
                j = max(range(len(shape)), key=lambda q: shape[q])
                shape[j] = max(1, shape[j] // 2)
            types = list(H5T)
            if not dist:
                types += [">f8", ">i4"]
                if wconv:
                    types += ["U3", "U3"]
            dt = rng.choice(types)
            parent = rng.choice([""] + [g + "/" for g in groups]) if api != "array" else rng.choice(["", "g/"])
            d = {"name": f"{parent}d{k}", "dist": dist, "shape": shape, "dtype": dt, "axis": rng.randrange(len(shape)),
                 "order": rng.choice("CCF"), "attrs": self.gen_attrs(rng, 3) if api != "array" else {}, "neg": rng.random() < 0.2}
            if rng.random() < 0.4 and all(shape) and not (api == "array" and fmt == "h5"):
                d["chunks"] = [rng.randrange(1, s + 1) for s in shape]
                if rng.random() < 0.5 and (fmt == "h5" or dt not in ("rec", "recs")):
                    d["comp"] = rng.choice([["gzip", 4], ["gzip", None], ["bitshuffle", [0, "lz4"]]])
            dsets.append(d)
        reads = []
        for _ in range(rng.randrange(1, 4)):
            sel = {}
            hints = {}
            mode = rng.choice(["hints", "hints", "dict", "nohints", "serial"])
            if api == "array":
                mode = "hints"
            for d in dsets:
                if rng.random() < 0.5:
                    sel[d["name"]] = self.gen_sel(rng, d["shape"], fmt)
                if mode == "dict" and rng.random() < 0.6:
                    h = {"distributed": rng.random() < 0.75}
                    if h["distributed"] and d["dtype"] not in ("U3", ">f8", ">i4") and rng.random() < 0.8:
                        h["axis"] = rng.randrange(len(d["shape"]))
                    if not (h["distributed"] and d["dtype"] in ("U3", ">f8", ">i4")):
                        hints[d["name"]] = h
            if mode == "dict" and not hints:
                mode = "hints"
            reads.append({"mode": mode, "sel": sel, "hints": hints, "slash": rng.random() < 0.5,
                          "api": rng.choice(["group", "disk"]) if not sel else "group"})
        wsel = {}
        if serial and api == "tree" and rng.random() < 0.6:
            # a part of the tree copied into an open file
            for d in dsets:
                if rng.random() < 0.7:
                    wsel[d["name"]] = self.gen_sel(rng, d["shape"], fmt)
                    d.pop("chunks", None), d.pop("comp", None)
            for rd in reads:
                rd["sel"] = {}
        return {
            "wsel": wsel, "n": n, "r": r, "fmt": fmt, "api": api, "comm": comm, "serial": serial, "groups": groups if api != "array" else [],
            "attrs": self.gen_attrs(rng) if api != "array" else {}, "gattrs": {g: self.gen_attrs(rng, 3) for g in groups},
            "dsets": dsets, "wconv": wconv, "reads": reads, "path": rng.choice(["rel", "rel", "sub", "abs"]),
            "old": rng.random() < 0.35, "guess": rng.random() < 0.5, "whints": rng.random() > 0.12,
            "vis_p": rng.choice([0.0, 0.0, 0.3, 1.0]), "err_p": rng.choice([0.0] * 5 + [0.01, 0.05]),
            "rerr_p": rng.choice([0.0] * 6 + [0.02, 0.1]),
            "env": harness.gen_env(rng), "renv": harness.gen_env(rng),
        }

    # -- oracle -------------------------------------------------------------------
    def whole(self, d, salt):
        return make(tuple(d["shape"]), d["dtype"], salt)

    def part(self, program, d, salt):
        a = self.whole(d, salt)
        sel = dec_sel(program["wsel"].get(d["name"])) if program["wsel"] else None
        return a if sel is None else a[sel]

    def file_expect(self, program, color):
        exp = {}
        for k, d in enumerate(program["dsets"]):
            a = self.part(program, d, k + 10 * color)
            if a.dtype.kind == "U":
                a = a.astype(f"S{a.dtype.itemsize // 4}")
            exp[d["name"]] = a
        return exp

    def raw_check(self, program, path, color, when):
        """Read the file with the plain libraries."""
        import h5py
        import zarr

        exp = self.file_expect(program, color)
        with F.quiet():
            try:
                if program["fmt"] == "h5":
                    f = h5py.File(path, "r")
                else:
                    f = zarr.open_group(path, mode="r")
            except Exception as e:  # noqa: BLE001
                raise Violation("incomplete", f"{when} the file cannot be read: {type(e).__name__}: {str(e)[:100]}") from None
            try:
                names = []

                def walk(g, pre):
                    for k in g:
                        x = g[k]
                        names.append(pre + k)
                        if hasattr(x, "create_group"):
                            walk(x, pre + k + "/")

                walk(f, "")
                want = set(exp) | set(program["groups"])
                for nm in exp:
                    parts = nm.split("/")
                    want |= {"/".join(parts[:q]) for q in range(1, len(parts))}
                if set(names) != want:
                    raise Violation("wrong-tree", f"{when} the file holds {sorted(names)}, expected {sorted(want)}")
                for nm, a in exp.items():
                    ds = f[nm]
                    got = ds[...]
                    if tuple(ds.shape) != a.shape or np.dtype(ds.dtype) != a.dtype:
                        raise Violation("wrong-data", f"{when} dataset {nm} in the file is {ds.shape} {ds.dtype}, expected {a.shape} {a.dtype}")
                    if not R.same(got, a):
                        raise Violation("wrong-data", f"{when} dataset {nm} in the file: {R.describe_diff(got, a)}")
            finally:
                if program["fmt"] == "h5":
                    f.close()

    def expect_attrs(self, got, want, what):
        g = {k: norm(v) for k, v in dict(got).items() if not k.startswith("__memh5")}
        w = {k: norm(attr_value(v)) for k, v in want.items()}
        if g != w:
            raise Violation("wrong-attributes", f"{what}: {g}, expected {w}")

    # -- execution -------------------------------------------------------------------
    def execute(self, program, ctx):
        root = os.path.join(ctx.dir(), "fs")
        os.makedirs(root)
        cwd = os.getcwd()
        try:
            os.chdir(root)
            self.body(program, ctx, root)
        finally:
            os.chdir(cwd)

    def path_of(self, program, root, color):
        ext = ".h5" if program["fmt"] == "h5" else ".zarr"
        nm = f"data{color}{ext}"
        return {"rel": nm, "sub": "out/" + nm, "abs": os.path.join(root, "out", nm)}[program["path"]]

    def write_array(self, program, a, path, k, comm, **kw):
        a.to_file(path, program["dsets"][k]["name"], **kw)

    def read_array(self, program, path, k, **kw):
        return self.ma.MPIArray.from_file(path, program["dsets"][k]["name"], **kw)

    attach = staticmethod(F.attach)

    def body(self, program, ctx, root):
        import h5py
        import zarr

        F.R["makedirs"](os.path.join(root, "out"), exist_ok=True)
        n = program["n"]
        ncol = 2 if program["comm"] == "split" else 1
        paths = [self.path_of(program, root, c) for c in range(ncol)]
        if program["old"] and program["api"] != "array":
            for p in paths:
                f = h5py.File(p, "w") if program["fmt"] == "h5" else zarr.open_group(p, mode="w")
                f.create_dataset("old", data=np.arange(4))
                f.create_dataset(program["dsets"][0]["name"], data=np.full((3, 2), 9))
                f.attrs["old"] = 1
                if program["fmt"] == "h5":
                    f.close()
        fmt = self.ff.HDF5 if program["fmt"] == "h5" else self.ff.Zarr
        MPI = self.tools.MPI
        MPIArray = self.ma.MPIArray
        ok = {}

        def writer(wr):
            world = MPI.COMM_WORLD
            color = wr % 2 if ncol == 2 else 0
            comm = world.Split(color, wr) if ncol == 2 else world
            rank, size = comm.rank, comm.size
            path = paths[color]

            def arr(k, d):
                g = self.whole(d, k + 10 * color)
                loc = R.local_part(g, d["axis"], size, rank)
                loc = np.asfortranarray(loc) if d["order"] == "F" else np.ascontiguousarray(loc)
                return MPIArray.wrap(loc.copy(order="K"), d["axis"], comm=comm)

            try:
                if program["api"] == "array":
                    for k, d in enumerate(program["dsets"]):
                        kw = {}
                        if "chunks" in d:
                            kw["chunks"] = tuple(d["chunks"])
                        if "comp" in d:
                            kw.update(compression=d["comp"][0], compression_opts=tuple(d["comp"][1]) if isinstance(d["comp"][1], list) else d["comp"][1])
                        self.write_array(program, arr(k, d), path, k, comm, create=True, file_format=fmt, **kw)
                else:
                    if program["serial"]:
                        if rank:
                            ok[wr] = True
                            return
                        tree = self.md.MemGroup() if program["api"] == "tree" else self.md.MemDiskGroup()
                    elif program["api"] == "tree":
                        tree = self.md.MemGroup(distributed=True, comm=comm)
                    else:
                        tree = self.md.MemDiskGroup(distributed=True, comm=comm)
                    for a, v in program["attrs"].items():
                        tree.attrs[a] = attr_value(v)
                    for g in program["groups"]:
                        sub = tree.create_group(g)
                        for a, v in program["gattrs"].get(g, {}).items():
                            sub.attrs[a] = attr_value(v)
                    for k, d in enumerate(program["dsets"]):
                        kw = {}
                        if "chunks" in d:
                            kw["chunks"] = tuple(d["chunks"])
                        if "comp" in d:
                            kw.update(compression=d["comp"][0], compression_opts=tuple(d["comp"][1]) if isinstance(d["comp"][1], list) else d["comp"][1])
                        if d["dist"]:
                            ds = tree.create_dataset(d["name"], data=arr(k, d), distributed=True, **kw)
                        else:
                            ds = tree.create_dataset(d["name"], data=self.whole(d, k + 10 * color), **kw)
                        for a, v in d["attrs"].items():
                            ds.attrs[a] = attr_value(v)
                    hk = {} if program.get("whints", True) else {"hints": False}
                    if program["wsel"]:
                        f = h5py.File(path, "w") if program["fmt"] == "h5" else zarr.open_group(path, mode="w")
                        sel = {("/" if q % 2 else "") + nm: dec_sel(x) for q, (nm, x) in enumerate(sorted(program["wsel"].items()))}
                        self.md.deep_group_copy(tree, f, selections=sel, convert_dataset_strings=program["wconv"], file_format=fmt)
                        if program["fmt"] == "h5":
                            f.close()
                    elif program["api"] == "tree":
                        tree.to_file(path, convert_dataset_strings=program["wconv"], file_format=None if program["guess"] else fmt, **hk)
                    else:
                        tree.save(path, convert_dataset_strings=program["wconv"], file_format=fmt, **hk)
            except OSError as e:
                if "injected" in str(e) or sim_errors():
                    ok[wr] = e
                    return
                raise
            except Exception as e:
                if sim_errors():
                    ok[wr] = e
                    return
                raise
            ok[wr] = True
            if not sim_errors() and not program["serial"]:
                self.raw_check(program, path, color, f"as the save returned on rank {wr},")

        holder = {}

        def sim_errors():
            return holder["sim"].fs.errors

        def prepare(sim, world):
            self.attach({"root": root, "vis_p": program["vis_p"], "err_p": program["err_p"], "err_max": 1, "stat_step": True})(sim, world)
            holder["sim"] = sim

        run = ctx.simulate(n, writer, program["env"], prepare=prepare, finish=F.detach, max_steps=60000)
        errs = run.sim.fs.errors
        if not errs:
            ctx.require_clean(run, "saving:")
        else:
            ctx.probe("write_error_" + errs[0][0])
            for e in run.real_excs():
                if e is not None and not isinstance(e, OSError):
                    raise Violation("exception", f"saving: {e!r} with {errs}")
            if run.outcome != "done" or not all(ok.get(w) is True for w in range(n)):
                if run.outcome not in ("done", "deadlock", "budget"):
                    ctx.require_clean(run, "saving:")
                return
            ctx.probe("write_error_survived")
        for c in range(ncol):
            self.raw_check(program, paths[c], c, "after the save,")
        if not errs:
            want = {os.path.basename(p) for p in paths}
            got = set(F.R["listdir"](os.path.join(root, "out") if program["path"] != "rel" else root)) - {"out"}
            if program["path"] != "rel":
                got |= set(F.R["listdir"](root)) - {"out"}
            if got != want:
                raise Violation("leftover", f"files left behind: {sorted(got - want)}")
        # -- load ----------------------------------------------------------------
        self.read_phase(program, ctx, root, paths, fmt)

    def read_phase(self, program, ctx, root, paths, fmt):
        r = program["r"]
        MPI = self.tools.MPI
        MPIArray = self.ma.MPIArray
        holder = {}
        by = {d["name"]: (k, d) for k, d in enumerate(program["dsets"])}

        def reader(rr):
            comm = MPI.COMM_WORLD
            for q, rd in enumerate(program["reads"]):
                color = q % len(paths)
                path = paths[color]
                pre = "/" if rd["slash"] else ""
                what = f"load {q} ({rd['mode']})"
                try:
                    if program["api"] == "array":
                        for nm, (k, d) in by.items():
                            sel = dec_sel(rd["sel"].get(nm))
                            ax = d["axis"] - len(d["shape"]) if d["neg"] else d["axis"]
                            a = self.read_array(program, path, k, comm=comm, axis=ax, sel=sel, file_format=fmt)
                            g = self.whole(d, k + 10 * color)
                            g = g if sel is None else g[sel]
                            R.check_dist(a, g, d["axis"], r, rr, f"{what} of {nm} sel={sel}", comm)
                        continue
                    sel = {pre + nm: dec_sel(s) for nm, s in rd["sel"].items()}
                    kw = {"convert_dataset_strings": program["wconv"] and not self.dist_strings(program, rd), "file_format": None if program["guess"] else fmt}
                    if rd["mode"] != "serial":
                        kw["distributed"] = True
                        kw["comm"] = comm
                        if rd["mode"] == "nohints":
                            kw["hints"] = False
                        elif rd["mode"] == "dict":
                            kw["hints"] = {"/" + nm: dict(h) for nm, h in rd["hints"].items()}
                    if rd["api"] == "disk":
                        tree = self.md.MemDiskGroup.from_file(path, **kw)
                    else:
                        tree = self.md.MemGroup.from_file(path, selections=sel, **kw)
                except OSError:
                    if holder["sim"].fs.errors:
                        return
                    raise
                except Exception:
                    if holder["sim"].fs.errors:
                        return
                    raise
                self.check_tree(program, tree, rd, color, comm, r, rr, what, kw["convert_dataset_strings"])

        def prepare(sim, world):
            self.attach({"root": root, "err_p": program["rerr_p"], "err_max": 1, "err_ops": ("h5read",), "stat_step": True})(sim, world)
            holder["sim"] = sim

        run = ctx.simulate(r, reader, program["renv"], prepare=prepare, finish=F.detach, max_steps=60000)
        if run.sim.fs.errors:
            ctx.probe("read_error")
            return
        ctx.require_clean(run, "loading:")
        harness.require_no_leftovers(run, "loading")

    def dist_strings(self, program, rd):
        """Some dataset read as distributed holds byte strings (which are then not converted)."""
        for d in program["dsets"]:
            if d["dtype"] in ("S5", "recs") and self.axis_of(program, d, rd) is not None:
                return True
        return False

    def axis_of(self, program, d, rd):
        """The axis a dataset is distributed over after the load, None if common."""
        if rd["mode"] in ("serial", "nohints"):
            return None
        h = rd["hints"].get(d["name"], {}) if rd["mode"] == "dict" else {}
        stored = d["dist"] and not program["serial"]
        if not program.get("whints", True) and program["api"] != "array":
            stored = False
        if not h.get("distributed", stored):
            return None
        return h.get("axis", d["axis"] if stored else 0)

    def check_tree(self, program, tree, rd, color, comm, r, rr, what, conv):
        names = []

        def walk(g, pre):
            for k in g:
                x = g[k]
                names.append(pre + k)
                if hasattr(x, "create_group"):
                    walk(x, pre + k + "/")

        walk(tree, "")
        want = set(program["groups"]) | {d["name"] for d in program["dsets"]}
        if set(names) != want:
            raise Violation("wrong-tree", f"{what}: rank {rr} has {sorted(names)}, expected {sorted(want)}")
        self.expect_attrs(tree.attrs, program["attrs"], f"{what}: rank {rr} root attributes")
        for g in program["groups"]:
            self.expect_attrs(tree[g].attrs, program["gattrs"].get(g, {}), f"{what}: rank {rr} attributes of {g}")
        for k, d in enumerate(program["dsets"]):
            ds = tree[d["name"]]
            g = self.part(program, d, k + 10 * color)
            if g.dtype.kind == "U" and not conv:
                g = g.astype(f"S{g.dtype.itemsize // 4}")
            elif g.dtype.kind == "S" and conv:
                g = g.astype(f"U{g.dtype.itemsize}")
            elif d["dtype"] == "recs" and conv:
                g = g.astype([("a", "f8"), ("s", "U4")])
            sel = dec_sel(rd["sel"].get(d["name"]))
            if sel is not None:
                g = g[sel]
            ax = self.axis_of(program, d, rd)
            w = f"{what}: {d['name']} sel={sel}"
            if (ax is not None) != bool(ds.distributed):
                raise Violation("wrong-type", f"{w}: rank {rr} distributed={ds.distributed}, expected {ax is not None}")
            if ax is not None:
                R.check_dist(ds[:], g, ax, r, rr, w, comm)
            else:
                if not R.same(native(ds[:]), native(g)):
                    raise Violation("wrong-data", f"{w}: rank {rr} {R.describe_diff(native(ds[:]), native(g))}")
            self.expect_attrs(ds.attrs, d["attrs"], f"{what}: rank {rr} attributes of {d['name']}")

    def shrink(self, program):
        yield from super().shrink(program)
        for key in ("dsets", "reads", "groups"):
            for k in range(len(program[key])):
                q = dict(program)
                q[key] = program[key][:k] + program[key][k + 1 :]
                if key == "groups":
                    gone = program[key][k]
                    if any(d["name"].startswith(gone + "/") for d in program["dsets"]) or any(g.startswith(gone + "/") for g in q["groups"]):
                        continue
                if q["dsets"]:
                    yield q
        if program["r"] > 1:
            for m in range(1, program["r"]):
                yield dict(program, r=m)
        for k, v in (("comm", "world"), ("old", False), ("attrs", {}), ("gattrs", {}), ("wconv", False), ("path", "rel"),
                     ("whints", True), ("vis_p", 0.0), ("err_p", 0.0), ("rerr_p", 0.0), ("renv", harness.QUIET)):
            if program.get(k) != v and not (k == "wconv" and any(d["dtype"] == "U3" for d in program["dsets"])):
                yield dict(program, **{k: v})
        for k, d in enumerate(program["dsets"]):
            for key in ("chunks", "comp"):
                if key in d:
                    e = {a: b for a, b in d.items() if a != key}
                    yield dict(program, dsets=program["dsets"][:k] + [e] + program["dsets"][k + 1 :])
            for key, v in (("attrs", {}), ("order", "C"), ("dtype", "f8")):
                if d[key] != v:
                    yield dict(program, dsets=program["dsets"][:k] + [dict(d, **{key: v})] + program["dsets"][k + 1 :])
        for k, rd in enumerate(program["reads"]):
            for nm in rd["sel"]:
                e = dict(rd, sel={a: b for a, b in rd["sel"].items() if a != nm})
                yield dict(program, reads=program["reads"][:k] + [e] + program["reads"][k + 1 :])

    def describe(self, program):
        return {k: v for k, v in program.items() if k not in ("env", "renv")}


PROP = P()
