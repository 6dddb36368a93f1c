"""C24: tasks that find, load and save files, run by the real Manager on 1..5 ranks."""

import copy
import fnmatch
import os

import numpy as np
import yaml

from .. import fs as F
from .. import harness, models
from ..sched import Violation, current

R = models
NAMES = ["file1", "file2", "file3", "file10", "fileA", "b_x", "b_y", "zz", "B1"]
PATS = ["*", "file*", "b_?", "file[1-3]", "file[13]", "z*", "none*", "*1*", "file?"]


class Box:
    def __init__(self, p, rank, size, P):
        self.p, self.rank, self.size, self.P = p, rank, size, P
        self.got = []


class P(harness.Prop):
    id = "C24"
    title = "Tasks that load files deliver exactly the configured data, alike on all processes"
    rule = (
        "a run = 0..6 container files (HDF5, Zarr) in a directory whose listing order differs per rank, a pipeline with a random loading task (paths, globs, lists, passed on by another task, "
        "from attributes, path and tag, selected by key or in turn), random selections, distribution and redistribution on 1..5 ranks; every rank's deliveries are compared with "
        "a model of names, order, data, index maps, strings and tags; groups and lists of files are compared with the same model"
    )
    real = ("caput.pipeline.tasklib.io", "caput.pipeline", "caput.containers", "caput.memdata", "caput.mpiarray", "h5py (serial)", "zarr", "glob")
    stub = ("mpi4py (simulated network)", "clock", "order of directory listings (differs per rank)")
    quick_runs = 2500
    thorough_runs = 80000
    assumptions = ("files do not change while the pipeline runs",)

    def load(self):
        import caput.pipeline.tasklib.io as tio
        from caput import config, containers, memdata, pipeline
        from caput.pipeline import exceptions
        from caput.pipeline.tasklib import base
        from caput.util import mpitools

        self.pipeline, self.tio, self.mt, self.config, self.memdata = pipeline, tio, mpitools, config, memdata
        boxes = self.boxes = {}

        class LoadCont(containers.ContainerPrototype):
            _axes = ("a", "b_x")
            _dataset_spec = {
                "x": {"axes": ["a", "b_x"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "a"},
                "y": {"axes": ["b_x"], "dtype": np.float64, "initialise": True, "distributed": False},
            }

        LoadCont.__module__ = __name__
        globals()["LoadCont"] = LoadCont

        class Keys(base.ContainerTask):
            """Containers whose attributes choose the files to load."""

            i = 0

            def process(self):
                b = boxes[current().rank]
                if self.i >= len(b.p["keys"]):
                    raise exceptions.PipelineStopIteration
                k = self.i
                self.i += 1
                c = globals()["LoadCont"](a=2, b_x=2, comm=mpitools.MPI.COMM_WORLD)
                c.attrs["lsd"] = b.p["keys"][k]
                c.attrs["num"] = k
                if b.p["ktag"]:
                    c.attrs["tag"] = f"key{k}"
                return c

        class Groups(base.MPILoggedTask):
            """Passes on MemGroups."""

            i = 0

            def next(self):
                b = boxes[current().rank]
                if self.i >= len(b.p["keys"]):
                    raise exceptions.PipelineStopIteration
                self.i += 1
                return b.P.make_save(b, self.i - 1)

        class Snk(base.MPILoggedTask):
            def next(self, x):
                b = boxes[current().rank]
                b.got.append(b.P.observe(b, x))

        for c in (Keys, Snk, Groups):
            pipeline.local_tasks["C24" + c.__name__] = c

    # -- programs -----------------------------------------------------------------------
    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 4, 5])
        files = []
        for nm in rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4, 6])):
            files.append({"name": nm, "zarr": rng.random() < 0.25, "tag": rng.choice([None, None, "T"]), "lsd": rng.randrange(5), "shape": [rng.choice([1, 2, 5, 6]), rng.randrange(1, 5)],
                          "alien": rng.random() < 0.08})
        mode = rng.choice(["params", "params", "find", "find", "pathtag", "attrs", "select", "groups", "save"])
        dist = rng.random() < 0.7
        sel = {}
        for ax in ("a", "b_x"):
            if rng.random() < 0.3:
                s = rng.randrange(0, 4)
                sel[ax + "_range"] = [s, s + rng.randrange(1, 5)] + ([rng.randrange(1, 3)] if rng.random() < 0.4 else [])
            if rng.random() < 0.15 and not dist and not any(f["zarr"] for f in files) and not any(k.endswith("index") for k in sel):
                m = min([f["shape"][ax == "b_x"] for f in files], default=3)
                sel[ax + "_index"] = sorted(rng.sample(range(m), rng.randrange(1, m + 1)))
        redist = rng.choice([None, None, None, "b_x", "a"])
        if sel or redist:
            for f in files:
                f["alien"] = False  # nothing is known about the axes of such a file
        pats = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.5 or not files:
                pats.append(rng.choice(PATS))
            elif r < 0.93:
                pats.append("=" + rng.choice(files)["name"])
            else:
                pats.append("=missing")
        return {"n": n, "files": files, "mode": mode, "dist": dist, "sel": sel, "redist": redist, "conv": rng.choice([None, True, False]), "pats": pats,
                "single": rng.random() < 0.3, "keys": [rng.randrange(6) for _ in range(rng.randrange(0, 5))], "ktag": rng.random() < 0.5, "key_format": rng.choice([None, "{lsd}", "k{lsd}"]),
                "tagged": rng.sample(["1", "2", "A", "_x"], rng.randrange(1, 3)), "gtag": rng.random() < 0.5, "ext": rng.choice([".*", ".h5"]), "cont": rng.random() < 0.6, "env": harness.gen_env(rng), "ops": list(range(len(files)))}

    def directed(self):
        f = {"zarr": False, "tag": None, "lsd": 1, "shape": [3, 2], "alien": False}
        fs = [dict(f, name="file1"), dict(f, name="file3", lsd=2), dict(f, name="file2", lsd=3)]
        b = {"n": 2, "files": fs, "mode": "params", "dist": True, "sel": {}, "redist": None, "conv": None, "pats": ["*"], "single": False, "keys": [1, 2], "ktag": True, "key_format": None,
             "tagged": ["1"], "gtag": False, "ext": ".h5", "cont": True, "env": dict(harness.QUIET, salt=5), "ops": [0, 1, 2]}
        return [b, dict(b, mode="groups"), dict(b, mode="groups", pats=["file[1-3]"]), dict(b, mode="save"), dict(b, mode="save", cont=False), dict(b, files=[dict(fs[0], alien=True)], ops=[0])]

    # -- the data ---------------------------------------------------------------------------
    def fname(self, f):
        return f["name"] + (".zarr" if f["zarr"] else ".h5")

    def whole(self, p, k):
        f = p["files"][k]
        return R.make(f["shape"], "f8", 3 * k), R.make(f["shape"][1:], "f8", 3 * k + 1), np.array([f"s{j}{k}" for j in range(f["shape"][1])])

    def write(self, p, root, ctx):
        for k, f in enumerate(p["files"]):
            x, y, s = self.whole(p, k)
            path = os.path.join(root, self.fname(f))
            cls = "no.such.module.Klass" if f["alien"] else f"{__name__}.LoadCont"
            at = {"lsd": f["lsd"], "id": k, "note": "text"}
            if f["tag"]:
                at["tag"] = f"{f['tag']}{k}"
            if f["zarr"]:
                import zarr

                g = zarr.open_group(path, mode="w")
            else:
                import h5py

                g = h5py.File(path, "w")
            for nm, v, ax, d in (("x", x, ["a", "b_x"], True), ("y", y, ["b_x"], False), ("index_map/a", np.arange(x.shape[0]) * 10.0, None, False), ("index_map/b_x", s.astype("S3"), None, False)):
                ds = g.create_dataset(nm, data=v)
                if ax:
                    if f["zarr"]:
                        ds.attrs["axis"] = ax
                    else:
                        ds.attrs["axis"] = np.array(ax, dtype=object)
                    ds.attrs["__memh5_distributed_dset"] = d
            for kk, v in at.items():
                g.attrs[kk] = v
            g.attrs["__memh5_subclass"] = cls
            if not f["zarr"]:
                g.close()

    def observe(self, b, x):
        d = {nm: (np.array(x[nm][:]).copy(), getattr(x[nm], "distributed_axis", None)) for nm in ("x", "y")}
        im = {k: np.array(x.index_map[k]) for k in ("a", "b_x")} if hasattr(x, "index_map") else {k: np.array(x["index_map"][k][:]) for k in ("a", "b_x")}
        return int(x.attrs["id"]), x.attrs.get("tag"), d, im, type(x).__name__, x.attrs.get("note")

    def make_save(self, b, k):
        g = np.arange(6.0).reshape(3, 2) + k
        if b.p["cont"]:
            c = globals()["LoadCont"](a=3, b_x=2, comm=self.mt.MPI.COMM_WORLD)
            c["x"][:] = R.local_part(g, 0, b.size, b.rank)
            c["y"][:] = k
        else:
            c = self.memdata.MemGroup(distributed=True, comm=self.mt.MPI.COMM_WORLD)
            c.create_dataset("x", shape=(3, 2), dtype=np.float64, distributed=True, distributed_axis=0)
            c["x"][:] = R.local_part(g, 0, b.size, b.rank)
        c.attrs["id"] = k
        if b.p["keys"][k] > 3:
            c.attrs["tag"] = f"t{k}"
        return c

    # -- the model -----------------------------------------------------------------------------
    def expand(self, p, pats):
        """Names of files in order, or None if a named file is missing."""
        have = sorted(self.fname(f) for f in p["files"])
        out = []
        for t in pats:
            if t.startswith("="):
                m = [h for h in have if h.rsplit(".", 1)[0] == t[1:]]
                if not m:
                    return None
                out += m
            else:
                out += [h for h in have if fnmatch.fnmatchcase(h, t + p["ext"])]
        return out

    def patterns(self, p, d=""):
        """As given in the configuration."""
        have = {f["name"]: self.fname(f) for f in p["files"]}
        out = [os.path.join(d, have.get(t[1:], t[1:] + ".h5") if t.startswith("=") else t + p["ext"]) for t in p["pats"]]
        return out

    def expected(self, p):
        """-> (list of (file index, tag or False), error?)"""
        idx = {self.fname(f): k for k, f in enumerate(p["files"])}

        def own(k):
            f = p["files"][k]
            return f"{f['tag']}{k}" if f["tag"] else None

        m = p["mode"]
        if m in ("params", "find"):
            e = self.expand(p, p["pats"])
            if e is None:
                return [], True
            return [(idx[x], own(idx[x]) or x.rsplit(".", 1)[0]) for x in e], False
        if m == "pathtag":
            out = []
            for pre in ("file", "b"):
                for t in p["tagged"]:
                    x = f"{pre}{t}.h5"
                    if x not in idx:
                        return out, True
                    out.append((idx[x], own(idx[x]) or x[:-3]))
            return out, False
        if m == "attrs":
            out = []
            for j, k in enumerate(p["keys"]):
                x = f"file{k}.h5"
                if x not in idx:
                    return out, True
                out.append((idx[x], own(idx[x]) or (f"key{j}" if p["ktag"] else str(j))))
            return out, False
        e = self.expand(p, p["pats"])
        if e is None or (not e and p["key_format"] is None and p["keys"]):
            return [], True
        if p["key_format"] is None:
            return [(idx[e[j % len(e)]], False) for j in range(len(p["keys"]))], False
        last = {p["files"][idx[x]]["lsd"]: idx[x] for x in e}
        return [(last[k], False) for k in p["keys"] if k in last], False

    # -- execution -------------------------------------------------------------------------------
    def execute(self, program, ctx):
        p = copy.deepcopy(program)
        p["files"] = [p["files"][k] for k in p["ops"] if k < len(p["files"])]
        n, mode = p["n"], p["mode"]
        root = os.path.realpath(ctx.dir())
        self.write(p, root, ctx)
        self.boxes.clear()
        T = "caput.pipeline.tasklib.io."
        par = {"distributed": p["dist"], "selections": p["sel"]}
        if p["redist"]:
            par["redistribute"] = p["redist"]
        if p["conv"] is not None:
            par["convert_strings"] = p["conv"]
        pats = self.patterns(p)
        files = pats[0] if p["single"] and len(pats) == 1 else pats
        snk = {"type": "C24Snk", "in": "d"}
        if mode == "params":
            tasks = [{"type": T + "LoadFilesFromParams", "out": "d", "params": dict(par, files=files)}, snk]
        elif mode == "find":
            tasks = [{"type": T + "FindFiles", "out": "f", "params": {"files": files}}, {"type": T + "LoadFiles", "requires": "f", "out": "d", "params": par}, snk]
        elif mode == "pathtag":
            tasks = [{"type": T + "LoadFilesFromPathAndTag", "out": "d", "params": dict(par, paths=["file{tag}.h5", "b{tag}.h5"], tags=p["tagged"])}, snk]
        elif mode == "attrs":
            tasks = [{"type": "C24Keys", "out": "k"}, {"type": T + "LoadFilesFromAttrs", "in": "k", "out": "d", "params": dict(par, filename="file{lsd}.h5")}, snk]
        elif mode == "select":
            q = dict(par, files=files)
            if p["key_format"]:
                q["key_format"] = p["key_format"]
            tasks = [{"type": "C24Keys", "out": "k"}, {"type": T + "LoadFilesAndSelect", "in": "k", "out": "d", "params": q}, snk]
        elif mode == "save":
            tasks = [{"type": "C24Groups", "out": "k"}, {"type": T + "Save", "in": "k", "params": {"root": "saved"}}]
        text = None if mode == "groups" else yaml.safe_dump({"pipeline": {"tasks": tasks}}, sort_keys=False)
        what = f"{mode} {n} ranks, files {[(self.fname(f), f['shape'], f['tag'], f['lsd'], f['alien']) for f in p['files']]}, patterns {pats}, {par}, keys {p['keys']}"

        def prepare(sim, world):
            F.attach({"root": root, "stat_step": True})(sim, world)

        def rank_main(wr):
            b = self.boxes[wr] = Box(p, wr, n, self)
            if mode == "groups":
                return self.groups(p, pats)
            m = self.pipeline.Manager.from_yaml_str(text)
            m.run()

        cwd = os.getcwd()
        os.chdir(root)
        try:
            run = ctx.simulate(n, rank_main, p["env"], prepare=prepare, finish=F.detach)
        finally:
            os.chdir(cwd)
        if mode == "groups":
            return self.check_groups(p, run, ctx, what)
        if mode == "save":
            ctx.require_clean(run, what)
            return self.check_saved(p, root, what)
        exp, err = self.expected(p)
        if err:
            bad = [e for e in run.real_excs() if e is not None]
            if not bad:
                raise Violation("not-reported", f"{what}: a file is missing and no process raised an error (outcome {run.outcome})")
            if len(bad) != n:
                raise Violation("not-alike", f"{what}: a file is missing; only {len(bad)} of {n} processes raised an error: {bad[0]}")
        else:
            ctx.require_clean(run, what)
            harness.require_no_leftovers(run)
        for r in range(n):
            self.check_rank(p, self.boxes[r], exp, what)
        if exp:
            ctx.probe("loaded", len(exp))

    def sels(self, p, ax):
        if ax + "_range" in p["sel"]:
            return slice(*p["sel"][ax + "_range"])
        if ax + "_index" in p["sel"]:
            return p["sel"][ax + "_index"]
        return slice(None)

    def check_rank(self, p, b, exp, what):
        if [o[0] for o in b.got] != [k for k, _ in exp]:
            raise Violation("deliveries", f"{what}: rank {b.rank} was given files {[self.fname(p['files'][o[0]]) for o in b.got]}, expected {[self.fname(p['files'][k]) for k, _ in exp]}")
        for (k, tag, d, im, cls, note), (_, etag) in zip(b.got, exp):
            w = f"{what}: rank {b.rank} file {self.fname(p['files'][k])}"
            if etag is not False and tag != etag:
                raise Violation("tag", f"{w}: tag {tag!r}, expected {etag!r}")
            x, y, s = self.whole(p, k)
            sa, sb = self.sels(p, "a"), self.sels(p, "b_x")
            alien = p["files"][k]["alien"]
            x, y, ia, ib = x[sa][:, sb], y[sb], (np.arange(x.shape[0]) * 10.0)[sa], s[sb]
            for nm, e in (("x", x), ("y", y)):
                v, ax = d[nm]
                if nm == "x" and p["dist"] and not alien and ax != (1 if p["redist"] == "b_x" else 0):
                    raise Violation("distribution", f"{w}: x is distributed over axis {ax}")
                if (nm == "y" or not p["dist"]) and ax is not None:
                    raise Violation("distribution", f"{w}: {nm} is distributed over axis {ax}")
                e = e if ax is None else R.local_part(e, ax, b.size, b.rank)
                if not R.same(v, e):
                    raise Violation("wrong-data", f"{w}: {nm} {R.describe_diff(v, e)}")
            if not R.same(im["a"], ia):
                raise Violation("wrong-data", f"{w}: index map of a is {im['a']}, expected {ia}")
            got = im["b_x"]
            if [q.decode() if isinstance(q, bytes) else str(q) for q in got] != list(ib):
                raise Violation("wrong-data", f"{w}: index map of b_x is {got}, expected {ib}")
            if p["conv"] is not False and got.dtype.kind not in "UO":
                raise Violation("strings", f"{w}: index map of b_x was not converted ({got.dtype})")
            if not alien and cls != "LoadCont":
                raise Violation("class", f"{w}: loaded as {cls}")
            if note not in ("text", b"text"):
                raise Violation("attrs", f"{w}: attribute note is {note!r}")

    # -- lists and groups ------------------------------------------------------------------------
    def groups(self, p, pats):
        out = []
        g = [{"files": list(pats)}, {"files": list(reversed(pats))}]
        if p["gtag"]:
            g[0]["tag"] = "mine"
        for f, arg in ((self.tio.list_of_filegroups, g), (self.tio.list_of_filegroups, {"files": list(pats)}), (self.tio.list_or_glob, list(pats)), (self.tio.list_of_filelists, list(pats)),
                       (self.tio.list_of_filelists, [list(pats), list(reversed(pats))])):
            try:
                out.append(f(arg))
            except self.config.CaputConfigError:
                out.append("error")
        return out

    def check_groups(self, p, run, ctx, what):
        ctx.require_clean(run, what)
        a, z = self.expand(p, p["pats"]), self.expand(p, p["pats"][::-1])
        if a is None:
            exp = ["error"] * 5
        else:
            g = lambda fl, t: {"files": fl, "tag": t}
            exp = [[g(a, "mine" if p["gtag"] else "group_0"), g(z, "group_1")] if a else "error", [g(a, "group_0")] if a else "error", a, a, a + z]
        for r in range(p["n"]):
            for nm, v, e in zip(("list_of_filegroups", "list_of_filegroups (one)", "list_or_glob", "list_of_filelists", "list_of_filelists (nested)"), run.results[r], exp):
                if v != e:
                    raise Violation("file-list", f"{what}: rank {r}: {nm} gave {v}, expected {e}")
        if a:
            ctx.probe("groups")

    def check_saved(self, p, root, what):
        import h5py

        exp, c = {}, 0
        for k, key in enumerate(p["keys"]):
            if key > 3:
                exp[f"saved_t{k}.h5"] = k
            else:
                exp[f"saved_{c}.h5"] = k
                c += 1
        have = {f for f in os.listdir(root) if f.startswith("saved")}
        if have != set(exp):
            raise Violation("saved", f"{what}: saved {sorted(have)}, expected {sorted(exp)}")
        for nm, k in exp.items():
            with h5py.File(os.path.join(root, nm), "r") as f:
                if not R.same(f["x"][...], np.arange(6.0).reshape(3, 2) + k) or int(f.attrs["id"]) != k:
                    raise Violation("saved", f"{what}: {nm} holds {f['x'][...].tolist()} (id {f.attrs['id']})")


PROP = P()
