"""C25: tasks with one input and one output that read and write files by themselves."""

import copy
import os

import numpy as np
import yaml

from .. import fs as F
from .. import harness, models
from ..sched import Violation, current

R = models
ROOTS = ["", "out/", "out/sub/deep/", "pre_", "out/pre_", "~/home/"]


class Box:
    def __init__(self, p, rank, size, P):
        self.p, self.rank, self.size, self.P = p, rank, size, P
        self.given, self.cast, self.got = [], [], []
        self.objs = []
        self.seen, self.cached, self.task = [], [], None


class P(harness.Prop):
    id = "C25"
    title = "Tasks that read and write their own files process each input once and leave complete files"
    rule = (
        "a run = a pipeline on 1..4 ranks with a random one-in one-out task (single or iterating, group or container I/O, inputs from files, from the pipeline or none, outputs none, "
        "in memory, on disk in HDF5 or Zarr, distributed or common) with random names, roots and formats, I/O errors, and the configuration and versions savers; inputs given, casts, deliveries "
        "and the files left are compared with a model on every rank"
    )
    real = ("caput.pipeline.extensions", "caput.pipeline", "caput.memdata", "caput.containers", "caput.pipeline.tasklib.debug (SaveConfig, SaveModuleVersions)", "h5py (serial)", "zarr")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 2500
    thorough_runs = 80000
    assumptions = ("common groups are written by one process", "output names are distinct")

    def load(self):
        from caput import config, containers, memdata, pipeline
        from caput.pipeline import exceptions
        from caput.pipeline.extensions import _extensions as ext
        from caput.util import mpitools

        self.pipeline, self.mt, self.config, self.memdata, self.ext, self.containers = pipeline, mpitools, config, memdata, ext, containers
        boxes = self.boxes = {}

        class FileCont(containers.ContainerPrototype):
            _axes = ("a", "b")
            _dataset_spec = {"x": {"axes": ["a", "b"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "a"}}

        FileCont.__module__ = __name__
        FileCont.__qualname__ = "FileCont"
        globals()["FileCont"] = FileCont

        class Body:
            def process(self, input):
                b = boxes[current().rank]
                b.task = self
                b.given.append(b.P.observe(b, input))
                return b.P.output(b, len(b.given) - 1, input)

            def cast_input(self, input):
                b = boxes[current().rank]
                b.cast.append(b.P.observe(b, input))
                return input

        class NoIn:
            def process(self):
                b = boxes[current().rank]
                if len(b.given) >= len(b.p["items"]):
                    raise exceptions.PipelineStopIteration
                b.given.append(None)
                return b.P.output(b, len(b.given) - 1, None)

        class Two:
            def process(self, a, b):
                return a

        class Opt:
            def process(self, a=None):
                return a

        class Dist:
            _distributed = True

        for io, iom in (("Group", (ext.GroupIOMixin,)), ("Cont", (ext.ContainerIOMixin,)), ("DCont", (Dist, ext.ContainerIOMixin))):
            for kind, base in (("Iter", ext.IterBase), ("Single", ext.SingleBase)):
                for nm, body in (("In", Body), ("No", NoIn), ("Two", Two), ("Opt", Opt)):
                    if io == "Group" and nm in ("In", "No"):
                        bases = (body, ext.IterH5Base if kind == "Iter" else ext.SingleH5Base)
                    else:
                        bases = (body, *iom, base)
                    c = type(f"{io}{kind}{nm}", bases, {})
                    pipeline.local_tasks["C25" + c.__name__] = c

        class Src(pipeline.Task):
            i = 0

            def next(self):
                b = boxes[current().rank]
                if self.i >= len(b.p["items"]):
                    raise exceptions.PipelineStopIteration
                self.i += 1
                return b.P.item(b, self.i - 1)

        class Snk(pipeline.Task):
            def next(self, x):
                b = boxes[current().rank]
                b.got.append(b.P.observe(b, x))
                b.P.look(b)

        for c in (Src, Snk):
            pipeline.local_tasks["C25" + c.__name__] = c

    # -- programs -----------------------------------------------------------------------
    def generate(self, rng, i):
        n = rng.choice([1, 1, 2, 2, 3, 4])
        io = rng.choice(["Group", "Group", "Cont", "DCont"])
        items = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if io == "Group":
                out = rng.choice(["dist", "dist", "none", "zarr", "h5self", "h5other", "h5sub", "common", "same"])
                if n > 1 and out in ("h5self", "h5other", "h5sub", "common", "same"):
                    out = "dist"
            else:
                out = rng.choice(["cont", "cont", "none"])
            items.append({"in": rng.choice(["group", "empty", "array", "zero"]) if io == "Group" else rng.choice(["cont", "array"]), "out": out, "zarr": rng.random() < 0.25, "rows": rng.choice([1, 2, 5])})
        fmt = rng.choice([None, None, "hdf5", "zarr"])
        if fmt == "zarr":
            for it in items:
                if it["out"] == "dist" and rng.random() < 0.3:
                    it["out"] = "zarr"
        return {"n": n, "io": io, "kind": rng.choice(["Iter", "Iter", "Single"]), "src": rng.choice(["files", "files", "pipe", "pipe", "none"]), "items": items, "missing": rng.random() < 0.08, "iroot": rng.choice(["in_", "in/", "~/in/"]),
                "oroot": rng.choice(ROOTS + [None]), "fmt": fmt, "oext": (".zarr" if fmt == "zarr" else ".h5") if rng.random() < 0.9 else ".h5", "cache": rng.random() < 0.3, "short": rng.randrange(1, 3) if rng.random() < 0.12 else 0, "bad": rng.choice(["both", "none2", "two", "opt", "nofeed"]) if rng.random() < 0.1 else None,
                "old": rng.random() < 0.3, "err_p": rng.choice([0.0, 0.0, 0.0, 0.03, 0.2]), "savers": rng.random() < 0.3, "save_versions": rng.random() < 0.5, "env": harness.gen_env(rng), "ops": list(range(len(items)))}

    def directed(self):
        it = {"in": "group", "out": "dist", "zarr": False, "rows": 3}
        b = {"n": 1, "io": "Group", "kind": "Iter", "src": "pipe", "items": [it, it], "missing": False, "iroot": "in_", "oroot": "pre_", "fmt": None, "oext": ".h5", "short": 0, "bad": None,
             "old": False, "err_p": 0.0, "savers": False, "save_versions": True, "env": dict(harness.QUIET), "ops": [0, 1]}
        out = [b, dict(b, items=[dict(it, **{"in": k}) for k in ("empty", "array")]), dict(b, items=[dict(it, **{"in": "zero"}), it]), dict(b, n=3, oroot="out/sub/"), dict(b, savers=True, n=2)]
        for o in ("h5self", "h5other", "h5sub", "zarr", "common"):
            out.append(dict(b, items=[dict(it, out=o)] * 2))
        z = dict(b, n=2, items=[dict(it, out="zarr")] * 2, oext=".zarr", fmt="zarr")
        for salt in range(6):
            out.append(dict(z, n=3, env=dict(harness.QUIET, preempt=0.5, salt=salt)))
        return out + [z, dict(b, src="files", items=[it, it, it]), dict(b, kind="Single", src="files"), dict(b, io="DCont", n=2, items=[dict(it, **{"in": "cont"}, out="cont")] * 2)]

    # -- the data ------------------------------------------------------------------------
    def data(self, p, k, out=False):
        return R.make([p["items"][k]["rows"], 3], "f8", 5 * k + (50 if out else 0))

    def item(self, b, k):
        kind = b.p["items"][k]["in"]
        if kind == "array":
            return np.arange(3.0) + k
        if kind == "zero":
            return k * 0
        if kind == "cont":
            return self.cont(b, self.data(b.p, k), k)
        g = self.memdata.MemGroup()
        if kind == "group":
            g.create_dataset("x", data=self.data(b.p, k))
            g.attrs["id"] = k
        return g

    def cont(self, b, v, k):
        c = globals()["FileCont"](a=v.shape[0], b=v.shape[1], comm=self.mt.MPI.COMM_WORLD)
        c["x"][:] = R.local_part(v, 0, b.size, b.rank)
        c.attrs["id"] = k
        return c

    def output(self, b, k, inp):
        p = b.p
        it = p["items"][k] if k < len(p["items"]) else {"out": "none"}
        o = it["out"]
        if o == "none":
            return None
        v = self.data(p, k, True)
        if o == "same":
            if not isinstance(inp, self.memdata.MemGroup):
                return None
            return inp
        if o == "cont":
            return self.cont(b, v, k)
        if o in ("dist", "common"):
            g = self.memdata.MemGroup(distributed=o == "dist", comm=self.mt.MPI.COMM_WORLD if o == "dist" else None)
            if o == "dist":
                g.create_dataset("x", shape=v.shape, dtype=v.dtype, distributed=True, distributed_axis=0)
                g["x"][:] = R.local_part(v, 0, b.size, b.rank)
            else:
                g.create_dataset("x", data=v)
            g.attrs["id"] = k
            return g
        with F.quiet():
            if o == "zarr":
                import zarr

                path = f"src{k}.zarr"
                if b.rank == 0:
                    z = zarr.open_group(path, mode="w")
                    z.create_dataset("x", data=v)
                    z.attrs["id"] = k
                b.P.mt.MPI.COMM_WORLD.Barrier()
                return zarr.open_group(path, mode="r")
            import h5py

            if o == "h5self":
                path = self.outname(p, k)
                F.R["makedirs"](os.path.dirname(path) or ".", exist_ok=True)
            else:
                path = f"src{k}.h5"
            f = h5py.File(path, "w")
            b.objs.append(f)
            g = f.create_group("sub") if o == "h5sub" else f
            g.create_dataset("x", data=v)
            g.attrs["id"] = k
            if o == "h5self" and k % 2:
                g = f["/"]  # a group of the file rather than the file
            if o != "h5self":
                f.flush()
            return g

    def observe(self, b, x):
        if isinstance(x, np.ndarray):
            return ("array", x.tolist())
        if isinstance(x, (int, float)):
            return ("number", x)
        if isinstance(x, self.memdata.MemGroup) and "x" not in x:
            return ("empty",)
        if x is None:
            return None
        with F.quiet():
            d = x["x"]
            ax = getattr(d, "distributed_axis", None)
            return ("data", np.array(d[:]).tolist(), ax, int(x.attrs["id"]), type(x).__name__)

    def look(self, b):
        """What the next task finds in the file that was written for its input."""
        p = b.p
        k = len(b.given) - 1
        if p["oroot"] is None or p["items"][k]["out"] in ("same", "h5self"):
            return
        name = self.outname(p, k)
        with F.quiet():
            b.seen.append((k, self.holds(name)))
        if p.get("cache") and p["oext"] == ".h5" and b.task is not None:
            b.cached.append((k, self.observe(b, b.task.read_output(name))))

    def expect_obs(self, b, k, out):
        p = b.p
        kind = p["items"][k]["in"]
        if out:
            o = p["items"][k]["out"]
            v = self.data(p, k, True)
            if o == "same":
                return self.expect_in(b, k)
            t = {"cont": "FileCont", "dist": "MemGroup", "common": "MemGroup", "zarr": "Group", "h5self": "Group" if k % 2 else "File", "h5other": "File", "h5sub": "Group"}[o]
            ax = 0 if o in ("cont", "dist") else None
            w = R.local_part(v, 0, b.size, b.rank) if ax == 0 else v
            return ("data", w.tolist(), ax, k, t)
        return self.expect_in(b, k)

    def expect_in(self, b, k):
        p = b.p
        v = self.data(p, k)
        if p["src"] == "files":
            if p["io"] == "Group":
                return ("data", v.tolist(), None, k, "MemGroup")
            d = p["io"] == "DCont"
            return ("data", (R.local_part(v, 0, b.size, b.rank) if d else v).tolist(), 0 if d else None, k, "FileCont")
        kind = p["items"][k]["in"]
        if kind == "array":
            return ("array", (np.arange(3.0) + k).tolist())
        if kind == "zero":
            return ("number", 0)
        if kind == "empty":
            return ("empty",)
        if kind == "cont":
            return ("data", R.local_part(v, 0, b.size, b.rank).tolist(), 0, k, "FileCont")
        return ("data", v.tolist(), None, k, "MemGroup")

    # -- names ------------------------------------------------------------------------------
    def middles(self, p):
        return [f"m{j}" for j in range(max(0, len(p["items"]) - p["short"]))]

    def inname(self, p, k):
        if p["kind"] == "Single":
            return os.path.expanduser(p["iroot"]) + "only.h5"
        return os.path.expanduser(p["iroot"]) + f"m{k}.h5"

    def outname(self, p, k):
        r = os.path.expanduser(p["oroot"])
        return r + ("res" if p["kind"] == "Single" else f"m{k}") + p["oext"]

    def put(self, path, v, k, cont):
        import h5py

        F.R["makedirs"](os.path.dirname(path) or ".", exist_ok=True)
        with h5py.File(path, "w") as f:
            d = f.create_dataset("x", data=v)
            f.attrs["id"] = k
            if cont:
                f.attrs["__memh5_subclass"] = f"{__name__}.FileCont"
                d.attrs["axis"] = np.array(["a", "b"], dtype=object)
                d.attrs["__memh5_distributed_dset"] = True
                f.create_dataset("index_map/a", data=np.arange(v.shape[0]))
                f.create_dataset("index_map/b", data=np.arange(v.shape[1]))

    def holds(self, path):
        """What a file holds: (values, id), None if it does not exist, 'broken' otherwise."""
        if not os.path.exists(path):
            return None
        try:
            if os.path.isdir(path):
                import zarr

                g = zarr.open_group(path, mode="r")
                return np.array(g["x"][:]).tolist(), int(g.attrs["id"])
            import h5py

            with h5py.File(path, "r") as f:
                return f["x"][:].tolist(), int(f.attrs["id"])
        except Exception as e:  # noqa: BLE001
            return f"broken ({type(e).__name__}: {str(e)[:80]})"

    # -- execution --------------------------------------------------------------------------
    def execute(self, program, ctx):
        p = copy.deepcopy(program)
        p["items"] = [p["items"][k] for k in p["ops"] if k < len(p["items"])]
        n, kind, src = p["n"], p["kind"], p["src"]
        if p["oroot"] is not None and p["oext"] == ".zarr":
            for it in p["items"]:
                if it["out"].startswith("h5"):
                    it["out"] = "dist"
        elif p["oroot"] is not None:
            for it in p["items"]:
                if it["out"] == "zarr":
                    it["out"] = "dist"
        if p["oroot"] is None:
            for it in p["items"]:
                if it["out"] == "h5self":
                    it["out"] = "h5other"
        root = os.path.realpath(ctx.dir())
        old_home = os.environ.get("HOME")
        os.environ["HOME"] = os.path.join(root, "house")
        cwd = os.getcwd()
        os.chdir(root)
        self.boxes.clear()
        try:
            self.go(p, ctx, root)
        finally:
            os.chdir(cwd)
            if old_home is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = old_home

    def go(self, p, ctx, root):
        n, kind, src = p["n"], p["kind"], p["src"]
        par = {}
        if src == "files":
            par["input_root"] = p["iroot"]
            for k in range(len(p["items"])):
                if not (p["missing"] and k == len(p["items"]) - 1):
                    self.put(self.inname(p, k), self.data(p, k), k, p["io"] != "Group")
                if kind == "Single":
                    break
            if kind == "Single" and not p["items"]:
                return
        if p["oroot"] is not None:
            par["output_root"] = p["oroot"]
        if p["fmt"]:
            par["output_format"] = p["fmt"]
        if kind == "Single":
            par.update(input_filename="only.h5", output_filename="res" + p["oext"])
        else:
            par.update(file_middles=self.middles(p), input_ext=".h5", output_ext=p["oext"])
        t = {"type": f"C25{p['io']}{kind}{'No' if src == 'none' else 'In'}", "out": "o", "params": par}
        tasks = []
        if src == "pipe" or p["bad"] in ("both", "two"):
            tasks.append({"type": "C25Src", "out": "i"})
            t["in"] = "i"
        if p["bad"] == "both":
            par["input_root"] = p["iroot"]
        elif p["bad"] == "none2":
            t["type"] = f"C25{p['io']}{kind}No"
            t.pop("in", None)
            par["input_root"] = p["iroot"]
        elif p["bad"] == "two":
            t["type"] = f"C25{p['io']}{kind}Two"
            t["in"] = ["i", "i"]
        elif p["bad"] == "opt":
            t["type"] = f"C25{p['io']}{kind}Opt"
        elif p["bad"] == "nofeed":
            t["type"] = f"C25{p['io']}{kind}In"
            t.pop("in", None)
            par.pop("input_root", None)
        tasks += [t, {"type": "C25Snk", "in": "o"}]
        conf = {"pipeline": {"tasks": tasks}}
        if p["savers"]:
            if p["save_versions"]:
                conf["pipeline"]["save_versions"] = ["caput", "numpy"]
            D = "caput.pipeline.tasklib.debug."
            tasks[:0] = [{"type": D + "SaveConfig", "params": {"root": "run"}}, {"type": D + "SaveModuleVersions", "params": {"root": "run"}}]
        text = yaml.safe_dump(conf, sort_keys=False)
        what = f"{t['type'][3:]} from {src} on {n} ranks, {[(i['in'], i['out'], i['rows']) for i in p['items']]}, {par}{' missing input' if p['missing'] else ''}"
        if p["old"] and p["oroot"] is not None and p["oext"] == ".h5" and p["bad"] is None:
            for k in range(len(p["items"])):
                if p["items"][k]["out"] != "h5self":
                    self.put(self.outname(p, k), np.full((2, 2), -1.0), -1, False)

        def prepare(sim, world):
            F.attach({"root": root, "stat_step": True, "err_p": p["err_p"], "err_max": 1})(sim, world)

        def rank_main(wr):
            b = self.boxes[wr] = Box(p, wr, n, self)
            self.pipeline.Manager.from_yaml_str(text).run()

        try:
            run = ctx.simulate(n, rank_main, p["env"], prepare=prepare, finish=F.detach)
            self.judge(p, ctx, run, conf, what)
        finally:
            for b in self.boxes.values():
                for f in b.objs:
                    try:
                        f.close()
                    except Exception:  # noqa: BLE001
                        pass

    def judge(self, p, ctx, run, conf, what):
        n, kind, src = p["n"], p["kind"], p["src"]
        errors = run.sim.fs.errors
        excs = run.real_excs()
        if p["bad"]:
            if not all(isinstance(e, self.config.CaputConfigError) for e in excs) and not errors:
                raise Violation("not-refused", f"{what}: a wrong configuration ({p['bad']}) was not refused by every process: {[repr(e)[:100] for e in excs]}")
            ctx.probe("refused")
            return
        # what is to happen
        count = len(p["items"])
        if kind == "Single":
            count = min(count, 1) if src != "none" else 1
            if src == "none" and not p["items"]:
                count = 0
        steps, fails = [], False
        lim = len(self.middles(p))
        for k in range(count):
            if src == "files" and kind == "Iter" and k >= lim:
                break
            if src == "files" and p["missing"] and (k == len(p["items"]) - 1 or (kind == "Single" and len(p["items"]) == 1)):
                if kind == "Iter" or len(p["items"]) == 1:
                    fails = True
                    break
            it = p["items"][k]
            out = it["out"]
            if out == "same" and (src == "none" or (src == "pipe" and it["in"] not in ("group", "empty"))):
                out = "none"
            write = out != "none" and p["oroot"] is not None
            if write and p["fmt"] == "zarr" and p["oext"] == ".h5":
                # the format contradicts the name
                fails = True
                steps.append((k, "fails", False))
                break
            if write and kind == "Iter" and k >= lim:
                fails = True
                steps.append((k, "fails", False))
                break
            steps.append((k, out, write))
        if errors:
            if not any(e is not None for e in excs) and run.outcome == "done":
                ctx.probe("error_recovered")
            else:
                # stopped by the error: nothing that was written is damaged
                for k, out, write in steps:
                    if write and out in ("dist", "common", "h5other", "h5sub"):
                        h = self.holds(self.outname(p, k))
                        if h is not None and h != (self.data(p, k, True).tolist(), k) and not (p["old"] and h == ([[-1.0, -1.0]] * 2, -1)):
                            raise Violation("damaged", f"{what}: {self.outname(p, k)} holds {h} after the error {errors}")
                ctx.probe("stopped_by_error")
                return
        if fails:
            bad = [e for e in excs if e is not None]
            if len(bad) != n:
                raise Violation("not-reported", f"{what}: {'a file is missing' if p['missing'] else 'there are no names left, or the format contradicts the name,'} and {n - len(bad)} of {n} processes did not report it")
        else:
            ctx.require_clean(run, what)
            harness.require_no_leftovers(run, what)
        for r in range(n):
            b = self.boxes[r]
            exp = [None if src == "none" else self.expect_in(b, k) for k, _, _ in steps]
            if b.given != exp:
                raise Violation("inputs", f"{what}: rank {r} was given {str(b.given)[:200]}, expected {str(exp)[:200]}")
            exp = exp if src == "pipe" else []
            if b.cast != exp:
                raise Violation("cast", f"{what}: rank {r} cast {str(b.cast)[:200]}, expected {str(exp)[:200]}")
            exp = [self.expect_obs(b, k, True) if o != "same" else self.expect_in(b, k) for k, o, _ in steps if o not in ("none", "fails")]
            got = [("data", *g[1:]) if g and g[0] == "data" else g for g in b.got]
            if got != exp:
                raise Violation("deliveries", f"{what}: rank {r} delivered {str(got)[:200]}, expected {str(exp)[:200]}")
            for k, h in b.seen:
                e = (self.data(p, k, True).tolist(), k)
                if h != e:
                    raise Violation("not-yet-written", f"{what}: rank {r} goes on although {self.outname(p, k)} holds {str(h)[:150]}, expected {str(e)[:150]}")
                ctx.probe("seen_by_next")
            for k, h in b.cached:
                v = self.data(p, k, True)
                ax = 0 if p["io"] == "DCont" else None
                e = ("data", (R.local_part(v, 0, n, r) if ax == 0 else v).tolist(), ax, k, "MemGroup" if p["io"] == "Group" else "FileCont")
                if h != e:
                    raise Violation("read-output", f"{what}: rank {r} reads {str(h)[:150]} from its own output, expected {str(e)[:150]}")
                ctx.probe("read_back")
        # the files
        for b in self.boxes.values():
            for f in b.objs:
                if any(o == "h5self" for _, o, _ in steps):
                    continue
                f.close()
        expected = set()
        for k, out, write in steps:
            if p["oroot"] is None:
                continue
            name = self.outname(p, k)
            if write:
                expected.add(os.path.normpath(name))
                if out == "same":
                    if src == "pipe" and p["items"][k]["in"] == "empty":
                        continue
                    e = (self.data(p, k).tolist(), k)
                else:
                    e = (self.data(p, k, True).tolist(), k)
                h = self.read_flushed(name) if out == "h5self" else self.holds(name)
                if h != e:
                    raise Violation("output-file", f"{what}: {name} holds {str(h)[:200]}, expected {str(e)[:200]}")
                ctx.probe("written")
            else:
                h = self.holds(name)
                e = ([[-1.0, -1.0]] * 2, -1) if p["old"] and p["oext"] == ".h5" and out != "h5self" else None
                if h != e and out not in ("fails", "same"):
                    raise Violation("output-file", f"{what}: {name} holds {str(h)[:100]} although nothing was to be written there")
        left = []
        for d, _, fs_ in os.walk("."):
            if ".zarr" in d:
                continue
            for f in fs_:
                if f.startswith(".") or f.endswith(".lock"):
                    left.append(os.path.join(d, f))
        if left and not fails:
            raise Violation("leftover", f"{what}: {left} remain")
        if p["savers"] and not fails:
            self.savers(p, conf, what)

    def read_flushed(self, name):
        """What another program sees while the writer still has the file open."""
        import shutil

        q = name + ".copy"
        F.R["copyfile"](name, q) if "copyfile" in F.R else shutil.copyfile(name, q)
        try:
            return self.holds(q)
        finally:
            os.remove(q)

    def savers(self, p, conf, what):
        try:
            with open("run_config.yml") as f:
                c = yaml.safe_load(f)
            with open("run_versions.yml") as f:
                v = yaml.safe_load(f)
        except Exception as e:  # noqa: BLE001
            raise Violation("savers", f"{what}: the saved configuration cannot be read: {type(e).__name__}: {str(e)[:200]}")
        if c != conf:
            raise Violation("savers", f"{what}: the saved configuration is {str(c)[:300]}")
        want = {"caput", "numpy"} if p["save_versions"] else set()
        if set(v or {}) != want or (want and v["numpy"] != np.__version__):
            raise Violation("savers", f"{what}: the saved versions are {v}")

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("savers", False), ("old", False), ("err_p", 0.0), ("short", 0), ("missing", False), ("oroot", "out/"), ("fmt", None), ("iroot", "in_")):
            if program.get(k) != v:
                if k == "fmt" and program["oext"] != ".h5":
                    continue
                yield dict(program, **{k: v})


PROP = P()
