"""C31: distributed data written and read with parallel HDF5 (simulated: the h5py installed here has no MPI)."""

import inspect
import os

import numpy as np

from .. import fs as F
from .. import harness, models, mpio
from ..sched import Violation
from . import c04, c30

R = models


class P(c04.P):
    id = "C31"
    title = "With parallel HDF5 all processes make the same collective calls, and the files are the same as without it"
    rule = (
        "a run = a tree (or set of arrays) saved by 1..6 simulated ranks, all of them or a part, to HDF5 through a simulated MPI-IO and loaded by 1..6 other ranks with axis selections; arrays are written and read by file name or in "
        "files and groups opened by the caller, with limits on the size of one transfer; every dataset, dtype and attribute compared with the original, every collective call with those of the other ranks"
    )
    real = ("caput.mpiarray", "caput.memdata", "caput.util.mpitools", "h5py (serial) holding the data")
    stub = ("mpi4py (simulated network)", "clock", "h5py's MPI-IO driver: shared open files, the rules of collective calls, the size limit of a transfer")
    quick_runs = 5000
    thorough_runs = 200000
    assumptions = (
        "compressed data are only written if every rank has some of them (documented)",
        "an array too large for one transfer has another axis than the distributed one long enough to split (documented)",
        "files are seen by all ranks as soon as they are written",
    )

    def load(self):
        super().load()
        mpio.install()
        self.part_io = None
        f = inspect.getattr_static(self.ma.MPIArray, "_partition_io", None)
        if inspect.isfunction(f) and "threshold" in inspect.signature(f).parameters:
            self.part_io = (f, inspect.signature(f))

    # -- programs ---------------------------------------------------------------
    def generate(self, rng, i):
        while True:
            p = super().generate(rng, i)
            if p["fmt"] == "h5":
                break
        p["vis_p"] = 0.0
        p["limit"] = rng.choice([None, None, 24, 60, 200, 1000])
        p["rlimit"] = rng.choice([None, None, 24, 60, 200, 1000])
        p["handle"] = rng.choice(["name", "name", "file", "group"])
        p["rhandle"] = rng.choice(["name", "name", "file", "group", "serial"])
        p["kind"] = "refuse" if rng.random() < 0.05 else "io"
        for d in p["dsets"]:
            d["method"] = rng.choice(["to_file", "to_hdf5"])
            if p["api"] == "array" and all(d["shape"]) and rng.random() < 0.4:
                d["chunks"] = [rng.randrange(1, s + 1) for s in d["shape"]]
                if rng.random() < 0.6:
                    d["comp"] = rng.choice([["gzip", 4], ["gzip", None], ["bitshuffle", [0, "lz4"]]])
        return p

    def directed(self):
        env = dict(harness.QUIET)
        out = []
        base = {"wsel": {}, "fmt": "h5", "serial": False, "groups": [], "attrs": {"a": 1}, "gattrs": {}, "wconv": False, "path": "rel", "old": False, "guess": False, "whints": True, "vis_p": 0.0, "err_p": 0.0, "rerr_p": 0.0,
                "env": env, "renv": env, "limit": None, "rlimit": None, "handle": "name", "rhandle": "name", "kind": "io"}
        for api in ("tree", "array"):
            for shape, axis in (([4, 6], 0), ([6, 4], 1), ([0, 3], 0), ([3, 0], 0), ([1, 2], 0)):
                for k in range(2):
                    d = {"name": "d0", "dist": True, "shape": shape, "dtype": "f8", "axis": axis, "order": "CF"[k], "attrs": {}, "neg": False, "method": "to_file"}
                    if k and all(shape):
                        d.update(chunks=[1, 2], comp=["bitshuffle", [0, "lz4"]])
                    q = dict(base, api=api, comm="split" if k else "world", n=4, r=3, dsets=[d], limit=60 if k else None, rlimit=60 if k else None,
                             reads=[{"mode": "hints", "sel": {}, "hints": {}, "slash": False, "api": "group"}])
                    if api == "array":
                        q["attrs"] = {}
                    out.append(q)
        return out

    def splits(self, shape, axis, item, size, limit):
        """An array can be written or read in pieces of at most *limit* bytes."""
        n = -(-shape[axis] // size)
        big = int(np.prod([n if k == axis else s for k, s in enumerate(shape)], dtype=np.int64)) * item
        if not limit or big <= limit:
            return True
        need = -(-big // limit)
        return any(k != axis and s >= need for k, s in enumerate(shape))

    def normal(self, program):
        """The program without what the library refuses by design."""
        p = dict(program, dsets=[dict(d) for d in program["dsets"]])
        n = p["n"]
        sizes = [n] if p["comm"] == "world" else [len(range(c, n, 2)) for c in range(2)]
        for d in p["dsets"]:
            if d["dist"] and "comp" in d and (d["shape"][d["axis"]] < n or not all(d["shape"])):
                d.pop("comp")
            if d["dist"] and not all(d["shape"]):
                d.pop("chunks", None)
            item = c04.dt_of(d["dtype"]).itemsize
            if d["dist"] and not all(self.splits(d["shape"], d["axis"], item, s, p["limit"]) for s in sizes):
                p["limit"] = None
            for rd in p["reads"]:
                sel = c04.dec_sel(rd["sel"].get(d["name"]))
                shape = d["shape"] if sel is None else np.empty(d["shape"], "b")[sel].shape
                ax = d["axis"] if p["api"] == "array" else self.axis_of(p, d, rd)
                if ax is None:
                    d["whole"] = True  # is read by one rank
                if ax is not None and not self.splits(shape, ax, item, p["r"], p["rlimit"]):
                    p["rlimit"] = None
        return p

    # -- execution ---------------------------------------------------------------
    def attach(self, cfg):
        reading = cfg.get("err_ops") == ("h5read",)
        limit = self.cur["rlimit" if reading else "limit"] if self.part_io else None
        self.limit = limit
        self.called = False
        # only arrays that are distributed are moved in pieces
        def capped(name):
            d = [x for x in self.cur["dsets"] if x["name"] == name[1:]]
            if reading and self.cur["api"] != "array":
                return self.called and not d[0].get("whole")
            return self.called

        return mpio.attach(cfg, limit, capped)

    def body(self, program, ctx, root):
        MPIArray = self.ma.MPIArray
        if self.part_io:
            f, sig = self.part_io

            def part(a, *args, **kw):
                b = sig.bind(a, *args, **kw)
                if self.limit:
                    self.called = True
                    b.arguments["threshold"] = self.limit / 2**30
                return f(*b.args, **b.kwargs)

            MPIArray._partition_io = part
        try:
            self.cur = self.normal(program)
            if program["kind"] == "refuse":
                self.refuse(program, ctx, root)
            else:
                super().body(self.cur, ctx, root)
                ctx.probe(self.cur["api"])
        finally:
            if self.part_io:
                MPIArray._partition_io = self.part_io[0]

    def raw_check(self, program, path, color, when):
        super().raw_check(program, path, color, when)
        with F.quiet():
            got = c30.PROP.file_settings(path, "h5")
        for d in program["dsets"]:
            ch, comp, _ = got[d["name"]]
            want = c30.canon(*d["comp"]) if "comp" in d else None
            if comp != want:
                raise Violation("wrong-compression", f"{when} {d['name']} is compressed with {comp}, expected {want}")
            if "chunks" in d and ch != tuple(d["chunks"]):
                raise Violation("wrong-chunks", f"{when} {d['name']} has chunks {ch}, expected {d['chunks']}")

    def within(self, path, mode, comm, how, name):
        """An open file or group to give to the library, and what to close afterwards."""
        import h5py

        if how == "serial":
            f = h5py.File(path, mode)
        else:
            f = h5py.File(path, mode, driver="mpio", comm=comm)
        head, _, tail = name.rpartition("/")
        if how == "group" and head:
            g = f.require_group(head) if mode != "r" else f[head]
            return g, tail, f
        return f, name, f

    def write_array(self, program, a, path, k, comm, **kw):
        d = program["dsets"][k]
        name = d["name"]
        if d.get("method") == "to_hdf5":
            kw.pop("file_format")
        if program["handle"] == "name":
            getattr(a, d.get("method", "to_file"))(path, name, **kw)
            return
        f, nm, top = self.within(path, "a", comm, program["handle"], name)
        getattr(a, d.get("method", "to_file"))(f, nm, **kw)
        if not top.id.valid:
            raise Violation("closed", f"writing {name} closed the file of the caller")
        top.close()

    def read_array(self, program, path, k, **kw):
        d = program["dsets"][k]
        how = program["rhandle"]
        m = self.ma.MPIArray.from_file
        if d.get("method") == "to_hdf5":
            kw.pop("file_format")
            m = self.ma.MPIArray.from_hdf5
        if how == "name":
            return m(path, d["name"], **kw)
        f, nm, top = self.within(path, "r", kw["comm"], how, d["name"])
        a = m(f, nm, **kw)
        if not top.id.valid:
            raise Violation("closed", f"reading {d['name']} closed the file of the caller")
        top.close()
        return a

    def refuse(self, program, ctx, root):
        """What can't be written is refused by every rank."""
        n = program["n"]
        MPI = self.tools.MPI
        d = program["dsets"][0]
        shape = [x or 1 for x in d["shape"]]
        if n < 2:
            return
        short = program["limit"] is None
        if short:
            shape[d["axis"]] = min(shape[d["axis"]], n - 1)
        else:
            shape = [max(shape[0], 9) * n]
        ax = d["axis"] if short else 0
        g = R.make(shape, "f8", 1)
        self.cur = dict(self.cur, limit=None if short else 64)
        got = {}

        def rank_main(r):
            comm = MPI.COMM_WORLD
            a = self.ma.MPIArray.wrap(np.array(R.local_part(g, ax, n, r)), ax, comm=comm)
            try:
                a.to_file("x.h5", "x", create=True, file_format=self.ff.HDF5, **({"compression": "gzip", "chunks": tuple(shape)} if short else {}))
            except (RuntimeError, ValueError) as e:
                got[r] = e
                return
            got[r] = None

        run = ctx.simulate(n, rank_main, program["env"], prepare=self.attach({"root": root, "stat_step": True}), finish=F.detach)
        if not short and self.part_io is None:
            return
        ctx.require_clean(run, "refusing:")
        if any(got[r] is None for r in range(n)) and not all(got[r] is None for r in range(n)):
            raise Violation("uneven", f"writing {shape} over axis {ax} was refused by some ranks only: {got}")
        ctx.probe("refused" if got[0] is not None else "not_refused")

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("limit", None), ("rlimit", None), ("handle", "name"), ("rhandle", "name"), ("kind", "io")):
            if program.get(k) != v:
                yield dict(program, **{k: v})


PROP = P()
