"""C30: chunking and compression settings of datasets, in memory and in files."""

import copy
import os
import warnings

import numpy as np

from .. import fs as F
from .. import harness, models
from ..sched import Violation

R = models
BITS = [["bitshuffle", [0, "lz4"]], ["bitshuffle", [None, "lz4"]], [32008, [0, 2]], ["32008", [0, "2"]], ["bitshuffle", [16, 2]]]
AXN = ["freq", "prod", "time"]


def canon(c, o, zarr=False):
    """What a setting asks for, however it is written."""
    if c is None:
        return None
    if c == "gzip":
        return ("gzip", int(o) if o is not None else (1 if zarr else 4))
    if str(c) in ("bitshuffle", "32008"):
        return ("bitshuffle", int(o[0] or 0))
    return (c,)


def arg(comp):
    return {} if comp is None else {"compression": comp[0], "compression_opts": tuple(comp[1]) if isinstance(comp[1], list) else comp[1]}


class P(harness.Prop):
    id = "C30"
    title = "Chunking and compression asked for are what the files get, on any number of processes, and files can be loaded and saved again"
    rule = (
        "a run = a group, container on 1..5 ranks with 1..4 datasets, common or distributed, chunked and compressed in several ways or not; up to 6 steps of copying, redistributing, converting, "
        "saving to HDF5 or zarr (whole, by a task with its own settings, array by array) and loading again; after every step the settings of every dataset on every rank, after every save those in the file "
        "(read with h5py and zarr) and the data are compared"
    )
    real = ("caput.memdata", "caput.memdata.fileformats", "caput.mpiarray file writing", "caput.containers", "caput.pipeline.tasklib.base.ContainerTask", "h5py, bitshuffle, zarr and numcodecs on a scratch directory")
    stub = ("mpi4py (simulated network)", "clock", "visibility of files to other ranks")
    quick_runs = 3000
    thorough_runs = 60000
    assumptions = (
        "loading a file distributed over processes may drop the settings (the library sets them again from the container class)",
        "compression of a zarr file need not be known after loading it into memory",
        "lzf is used with HDF5 only, datasets are not empty",
    )

    def load(self):
        from caput import containers, mpiarray
        from caput import memdata as md
        from caput.memdata import fileformats
        from caput.pipeline.tasklib import base, io
        from caput.util import mpitools

        self.ct, self.ma, self.md, self.ff, self.base, self.mt, self.io = containers, mpiarray, md, fileformats, base, mpitools, io

    # -- programs ------------------------------------------------------------------
    def gen_comp(self, rng, lzf):
        return rng.choice([None, ["gzip", 4], ["gzip", None], ["gzip", 7], rng.choice(BITS), rng.choice(BITS), ["lzf", None] if lzf else ["gzip", 1]])

    def generate(self, rng, i):
        kind = rng.choice(["group", "disk", "cont"])
        lzf = rng.random() < 0.3
        ln = {a: rng.choice([1, 2, 3, 5, 8]) for a in AXN}
        dsets = []
        for k in range(rng.randrange(1, 5)):
            axes = rng.sample(AXN, rng.choice([1, 2, 2, 3]))
            shape = [ln[a] for a in axes]
            ch = None
            if rng.random() < 0.7:
                # the classes may give chunks larger than the data
                ch = [rng.randrange(1, s + 1 + (3 if kind == "cont" else 0)) for s in shape]
            dsets.append({"name": f"d{k}" if kind == "cont" or rng.random() < 0.7 else f"g/d{k}", "axes": axes, "shape": shape, "dist": rng.random() < 0.6, "axis": rng.randrange(len(axes)), "chunks": ch,
                          "comp": self.gen_comp(rng, lzf), "dtype": rng.choice(["f8", "f4", "i4", "c16"])})
        ops = []
        for _ in range(rng.randrange(1, 7)):
            fmt = "h5" if lzf else rng.choice(["h5", "h5", "zarr"])
            op = rng.choice(["copy", "redist", "todist", "tocommon", "io", "io", "io", "task", "array", "ondisk", "ensure"])
            k = rng.randrange(len(dsets))
            if op in ("redist", "todist"):
                ops.append([op, k, rng.randrange(3)])
            elif op == "tocommon":
                ops.append([op, k])
            elif op in ("io", "ondisk"):
                ops.append([op, fmt, rng.choice(["serial", "serial", "dist"]) if op == "io" else ("h5" if lzf else rng.choice(["h5", "zarr"]))])
            elif op == "task":
                conf = rng.choice([True, False, "dict", "dict"])
                if conf == "dict":
                    conf = {}
                    for d in dsets:
                        if rng.random() < 0.6:
                            c = self.gen_comp(rng, lzf)
                            s = {}
                            if rng.random() < 0.6:
                                s["chunks"] = [rng.randrange(1, x + 3) for x in d["shape"]]
                            if c is not None:
                                s["compression"] = c[0]
                                if str(c[0]) not in ("bitshuffle", "32008") or rng.random() < 0.6:
                                    s["compression_opts"] = c[1]
                            conf[d["name"]] = s
                    if rng.random() < 0.2:
                        conf["nosuch"] = {"compression": "gzip"}
                ops.append([op, fmt, conf])
            elif op == "array":
                ops.append([op, k, fmt, self.gen_comp(rng, lzf), rng.random() < 0.7])
            else:
                ops.append([op])
        return {"n": R.gen_n(rng, 5), "kind": kind, "len": ln, "dsets": dsets, "ops": ops, "chunked": rng.random() < 0.85, "distributed": rng.random() < 0.7, "salt": rng.randrange(1000),
                "env": harness.gen_env(rng)}

    def directed(self):
        env = dict(harness.QUIET)
        out = []
        for n in (1, 2):
            for fmt in ("h5", "zarr"):
                for comp in (BITS[0], ["gzip", 7]):
                    d = {"name": "d0", "axes": ["freq", "time"], "shape": [4, 6], "axis": 0, "chunks": [2, 3], "comp": comp, "dtype": "f8", "dist": n > 1}
                    out.append({"n": n, "kind": "disk", "len": {"freq": 4, "prod": 2, "time": 6}, "dsets": [d], "ops": [["io", "h5", "serial"], ["io", fmt, "serial"], ["ondisk", "h5", fmt]], "chunked": True, "distributed": True,
                                "salt": 1, "env": env})
                    out.append(dict(out[-1], ops=[["array", 0, fmt, comp, True], ["task", fmt, {"d0": {"compression": "bitshuffle"}}]], dsets=[dict(d, dist=True)]))
        return out

    # -- execution -------------------------------------------------------------------
    def execute(self, p, ctx):
        root = os.path.join(ctx.dir(), "fs")
        os.makedirs(root)
        cwd = os.getcwd()
        try:
            os.chdir(root)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.body(p, ctx, root)
        finally:
            os.chdir(cwd)

    def file_settings(self, path, fmt):
        """(chunks, compression, data) of every dataset in a file, read without caput."""
        import h5py
        import numcodecs
        import zarr

        out = {}
        if fmt == "h5":
            with h5py.File(path, "r") as f:
                def visit(nm, x):
                    if isinstance(x, h5py.Dataset):
                        pl = x.id.get_create_plist()
                        fl = [pl.get_filter(k) for k in range(pl.get_nfilters())]
                        comp = None
                        for code, _, opts, _ in fl:
                            if code == 1:
                                comp = ("gzip", opts[0])
                            elif code == 32008:
                                comp = ("bitshuffle", opts[3]) if len(opts) > 4 and opts[4] == 2 else ("bitshuffle without lz4", opts)
                            elif code == 32000:
                                comp = ("lzf",)
                            else:
                                comp = (f"filter {code}",)
                        out[nm] = (x.chunks, comp, x[...])

                f.visititems(visit)
        else:
            f = zarr.open_group(path, mode="r")

            def visit(nm, x):
                if isinstance(x, zarr.Array):
                    c = x.compressor
                    if isinstance(c, numcodecs.GZip):
                        comp = ("gzip", c.level)
                    elif isinstance(c, numcodecs.Blosc):
                        comp = ("bitshuffle", c.blocksize) if c.shuffle == numcodecs.Blosc.BITSHUFFLE and c.cname == "lz4" else (str(c),)
                    else:
                        comp = None if c is None else (str(c),)
                    out[nm] = (tuple(x.chunks), comp, x[...])

            f.visititems(visit)
        return out

    def body(self, p, ctx, root):
        if not p["dsets"]:
            return
        md, MPIArray = self.md, self.ma.MPIArray
        FMT = {"h5": self.ff.HDF5, "zarr": self.ff.Zarr}
        full = {d["name"]: R.make(d["shape"], d["dtype"], p["salt"] + k) for k, d in enumerate(p["dsets"])}
        names = list(full)
        kind, gd = p["kind"], p["distributed"]
        if kind == "cont":
            spec = {}
            for d in p["dsets"]:
                spec[d["name"]] = {"axes": list(d["axes"]), "dtype": R.dtype_of(d["dtype"]), "initialise": True, "distributed": d["dist"], "distributed_axis": d["axes"][d["axis"]]}
                if d["chunks"]:
                    spec[d["name"]]["chunks"] = tuple(d["chunks"])
                if d["comp"]:
                    spec[d["name"]].update(arg(d["comp"]))
            cls = type("StoreCont", (self.ct.ContainerPrototype,), {"_axes": tuple(AXN), "_dataset_spec": spec, "__module__": __name__})
            globals()["StoreCont"] = cls
        else:
            cls = md.MemGroup if kind == "group" else md.MemDiskGroup

        class Save(self.base.ContainerTask):
            def process(self, x):
                return x

        def rank_main(r):
            comm = self.mt.MPI.COMM_WORLD
            model = {}  # name -> [chunks, compression, options]

            def part(nm, ds):
                return R.local_part(full[nm], ds.distributed_axis, comm.size, comm.rank) if ds.distributed else full[nm]

            if kind == "cont":
                t = cls(**p["len"], comm=comm, distributed=gd, allow_chunked=p["chunked"])
                for d in p["dsets"]:
                    ch = tuple(min(a, b) for a, b in zip(d["chunks"], d["shape"])) if d["chunks"] else None
                    a = arg(d["comp"])
                    model[d["name"]] = [ch, a.get("compression"), a.get("compression_opts")] if p["chunked"] else [None, None, None]
                    t[d["name"]][:] = part(d["name"], t[d["name"]])
            else:
                t = cls(distributed=gd, comm=comm if gd else None)
                for d in p["dsets"]:
                    kw = arg(d["comp"])
                    if d["chunks"]:
                        kw["chunks"] = tuple(d["chunks"])
                    if d["dist"] and gd:
                        a = MPIArray.wrap(np.array(R.local_part(full[d["name"]], d["axis"], comm.size, comm.rank)), axis=d["axis"], comm=comm)
                        t.create_dataset(d["name"], data=a, distributed=True, distributed_axis=d["axis"], **kw)
                    else:
                        t.create_dataset(d["name"], data=full[d["name"]].copy(), **kw)
                    model[d["name"]] = [kw.get("chunks"), kw.get("compression"), kw.get("compression_opts")]

            def check(what):
                for nm in names:
                    ds = t[nm]
                    w = model[nm]
                    got = (ds.chunks if ds.chunks is None else tuple(ds.chunks), canon(ds.compression, ds.compression_opts))
                    if got != (w[0], canon(w[1], w[2])):
                        raise Violation("settings-lost", f"rank {r} {what}: {nm} has {ds.chunks} {ds.compression} {ds.compression_opts}, expected {w}")
                    if not R.same(np.asarray(ds[:]), part(nm, ds)):
                        raise Violation("wrong-data", f"rank {r} {what}: {nm} {R.describe_diff(np.asarray(ds[:]), part(nm, ds))}")

            def check_file(path, fmt, what, want=None, only=None):
                """The settings in a file are those of the datasets in memory. Returns them."""
                want = want or model
                got = self.file_settings(path, fmt)
                for nm in only or names:
                    if nm not in got:
                        raise Violation("missing", f"rank {r} {what}: {nm} is not in the file")
                    ch, c, x = got[nm]
                    w = want[nm]
                    wc = canon(w[1], w[2], fmt == "zarr")
                    if c != wc:
                        raise Violation("wrong-compression", f"rank {r} {what}: {nm} is compressed with {c} in the {fmt} file, expected {wc} from {w}")
                    if w[0] is not None and ch != tuple(w[0]):
                        raise Violation("wrong-chunks", f"rank {r} {what}: {nm} has chunks {ch} in the {fmt} file, expected {w}")
                    if w[0] is None and wc is None and fmt == "h5" and ch is not None:
                        raise Violation("wrong-chunks", f"rank {r} {what}: {nm} has chunks {ch} in the file, expected none")
                    if not R.same(x, full[nm]):
                        raise Violation("wrong-data", f"rank {r} {what}: {nm} in the file: {R.describe_diff(x, full[nm])}")
                return got

            def save(path, fmt):
                f = FMT[fmt]
                if gd or comm.rank == 0:
                    t.to_file(path, file_format=f) if kind == "group" else t.save(path, file_format=f)
                comm.Barrier()

            check("at first")
            for q, op in enumerate(p["ops"]):
                what = f"step {q} {op} of {p['ops'][:q]}"
                if op[0] == "copy":
                    if kind == "group":
                        c = md.MemGroup(distributed=gd, comm=comm if gd else None)
                        md.deep_group_copy(t, c)
                        t = c
                    else:
                        t = t.copy()
                elif op[0] == "redist":
                    nm = names[op[1] % len(names)]
                    if t[nm].distributed:
                        t[nm].redistribute(op[2] % full[nm].ndim)
                elif op[0] in ("todist", "tocommon"):
                    nm = names[op[1] % len(names)]
                    if not gd:
                        continue
                    if op[0] == "tocommon":
                        t.dataset_distributed_to_common(nm)
                    else:
                        t.dataset_common_to_distributed(nm, op[2] % full[nm].ndim)
                elif op[0] == "io":
                    path = f"f{q}." + op[1]
                    save(path, op[1])
                    got = check_file(path, op[1], what)
                    dist = op[2] == "dist" and gd
                    kw = {"file_format": FMT[op[1]], "distributed": dist}
                    if dist or kind != "group":
                        kw["comm"] = comm
                    t = cls.from_file(path, **kw)
                    for nm in names:
                        ch, c, _ = got[nm]
                        ds = t[nm]
                        now = canon(ds.compression, ds.compression_opts, op[1] == "zarr")
                        if now is None and (dist or op[1] == "zarr"):
                            c = None
                        nch = ds.chunks if ds.chunks is None else tuple(ds.chunks)
                        if dist and nch is None:
                            ch = None
                        if (nch, now) != (ch, c):
                            raise Violation("settings-lost", f"rank {r} {what}: {nm} loaded with {ds.chunks} {ds.compression} {ds.compression_opts}, the file has {got[nm][:2]}")
                        model[nm] = [nch, ds.compression, ds.compression_opts]
                    if not dist and gd:
                        # everything is common now, in a group that isn't distributed
                        return finish(t, what)
                elif op[0] == "ondisk":
                    path = f"f{q}." + op[1]
                    save(path, op[1])
                    got = check_file(path, op[1], what)
                    if comm.rank == 0:
                        p2 = f"c{q}." + op[2]
                        if kind == "group":
                            with md.MemDiskGroup.from_file(path, ondisk=True, mode="r", file_format=FMT[op[1]]) as c:
                                c.save(p2, file_format=FMT[op[2]])
                        else:
                            with cls.from_file(path, ondisk=True, mode="r", file_format=FMT[op[1]], distributed=False) as c:
                                c.save(p2, file_format=FMT[op[2]])
                        want = {}
                        new = self.file_settings(p2, op[2])
                        for nm in names:
                            ch, c, x = got[nm]
                            if op[1] == "zarr" and op[2] == "h5" and new[nm][1] is None:
                                c = None  # HDF5 can't use a zarr compressor
                            if new[nm][:2] != (ch, c) and not (ch is None and op[2] == "zarr" and new[nm][1] == c):
                                raise Violation("settings-lost", f"rank {r} {what}: {nm} has {new[nm][:2]} in the copied file, {got[nm][:2]} in the original")
                            if not R.same(new[nm][2], full[nm]):
                                raise Violation("wrong-data", f"rank {r} {what}: {nm} in the copied file: {R.describe_diff(new[nm][2], full[nm])}")
                        ctx.probe(f"{op[1]}-to-{op[2]}")
                    comm.Barrier()
                elif op[0] == "task":
                    if kind != "cont" or (not gd and comm.size > 1):
                        continue
                    conf = copy.deepcopy(op[2])
                    if conf is False:
                        model = {nm: [None, None, None] for nm in names}
                    elif isinstance(conf, dict):
                        for nm, s in conf.items():
                            if nm not in model:
                                continue
                            w = model[nm]
                            if "chunks" in s:
                                w[0] = tuple(min(a, b) for a, b in zip(s["chunks"], full[nm].shape))
                            if "compression" in s:
                                w[1] = s["compression"]
                            if "compression_opts" in s:
                                w[2] = s["compression_opts"]
                            if str(w[1]) in ("bitshuffle", "32008") and not isinstance(w[2], list | tuple):
                                s["compression_opts"] = w[2] = None if w[1] != "32008" else [0, 2]
                                if w[2] is None:
                                    w[2] = [0, 2]
                            elif w[1] == "gzip" and isinstance(w[2], list | tuple):
                                s["compression_opts"] = w[2] = 3
                            elif w[1] == "lzf":
                                s["compression_opts"] = w[2] = None
                    path = f"t{q}." + op[1]
                    task = Save._from_config({"save": True, "output_name": path, "output_format": "hdf5" if op[1] == "h5" else "zarr", "compression": conf})
                    out = task.next(t)
                    if out is not t:
                        raise Violation("lost", f"rank {r} {what}: the task returned {out!r}")
                    comm.Barrier()
                    check_file(path, op[1], what)
                elif op[0] == "ensure":
                    # set again from the class what was lost or never set
                    if kind != "cont":
                        continue
                    new = {}
                    for d in p["dsets"]:
                        w, a = list(model[d["name"]]), arg(d["comp"])
                        if w[0] is None and d["chunks"]:
                            w[0] = tuple(min(x, y) for x, y in zip(d["chunks"], d["shape"]))
                        if w[1] is None and a:
                            w[1], w[2] = a["compression"], a["compression_opts"]
                        elif a and w[2] is None and a["compression_opts"] is not None:
                            break
                        new[d["name"]] = w
                    else:
                        self.io.Truncate._from_config({"dataset": {}, "ensure_chunked": True}).process(t)
                        model.update(new)
                elif op[0] == "array":
                    nm = names[op[1] % len(names)]
                    ds = t[nm]
                    if not ds.distributed:
                        continue
                    kw = arg(op[3])
                    if op[4] and model[nm][0] is not None:
                        kw["chunks"] = tuple(model[nm][0])
                    path = f"a{q}." + op[2]
                    ds[:].to_file(path, "x", create=True, file_format=FMT[op[2]], **kw)
                    comm.Barrier()
                    got = self.file_settings(path, op[2])
                    wc = canon(kw.get("compression"), kw.get("compression_opts"), op[2] == "zarr")
                    if got["x"][1] != wc or ("chunks" in kw and got["x"][0] != kw["chunks"]):
                        raise Violation("settings-lost", f"rank {r} {what}: {nm} written with {kw} has {got['x'][:2]} in the file")
                    if not R.same(got["x"][2], full[nm]):
                        raise Violation("wrong-data", f"rank {r} {what}: {nm} in the file: {R.describe_diff(got['x'][2], full[nm])}")
                    ctx.probe("array")
                    comm.Barrier()
                check(what)
                ctx.probe(op[0])
            return None

        def finish(t, what):
            """What was loaded on each process alone is saved once more by each."""
            comm = self.mt.MPI.COMM_WORLD
            for fmt in ("h5",) if any(t[nm].compression == "lzf" for nm in names) else ("h5", "zarr"):
                path = f"r{comm.rank}.{fmt}"
                t.to_file(path, file_format=FMT[fmt]) if kind == "group" else t.save(path, file_format=FMT[fmt])
                got = self.file_settings(path, fmt)
                for nm in names:
                    want = canon(t[nm].compression, t[nm].compression_opts, fmt == "zarr")
                    if got[nm][1] != want or (t[nm].chunks is not None and got[nm][0] != tuple(t[nm].chunks)):
                        raise Violation("settings-lost", f"rank {comm.rank} after {what}: {nm} with {t[nm].chunks} {t[nm].compression} has {got[nm][:2]} in the {fmt} file")
                    if not R.same(got[nm][2], full[nm]):
                        raise Violation("wrong-data", f"rank {comm.rank} after {what}: {nm} saved again: {R.describe_diff(got[nm][2], full[nm])}")
            ctx.probe("saved-again")

        run = ctx.simulate(p["n"], rank_main, p["env"], prepare=F.attach({"root": root, "vis_p": 0, "err_p": 0, "err_max": 0, "stat_step": True}), finish=F.detach)
        ctx.require_clean(run, "storage settings:")


PROP = P()
