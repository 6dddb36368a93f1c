"""C10: zipping saved containers with external jobs: archives, sources, failures and waiting."""

import copy
import os

import numpy as np
import yaml

from .. import fs as F
from .. import harness, models, procs
from ..sched import HarnessError, Violation, current

R = models
DESTRUCTIVE = ("unlink", "remove", "rmdir", "rename", "replace")


class RankState:
    """Class attributes and globals of the task module, one set per simulated process."""

    def __init__(self, sim, module, n):
        self.objs = [module] + [c for c in vars(module).values() if isinstance(c, type) and c.__module__ == module.__name__]
        self.base = self.save()
        self.cur = None
        self.states = {r: copy.deepcopy(self.base) for r in range(n)}
        sim.on_switch.append(self.switch)

    def save(self):
        return [{k: v for k, v in vars(o).items() if not k.startswith("__") and (v is None or isinstance(v, (bool, int, float, str, list, dict, set, tuple)))} for o in self.objs]

    def load(self, s):
        for o, d in zip(self.objs, s):
            for k, v in d.items():
                if vars(o).get(k) is not v:
                    setattr(o, k, v)

    def switch(self, st):
        if self.cur == st.rank:
            return
        if self.cur is not None:
            self.states[self.cur] = self.save()
        self.cur = st.rank
        self.load(self.states[st.rank])

    def restore(self):
        self.load(self.base)


class Box:
    def __init__(self, p, rank, size, P):
        self.p, self.rank, self.size, self.P = p, rank, size, P
        self.saved = []


class P(harness.Prop):
    id = "C10"
    title = "Zipping saved containers with external jobs never loses data"
    rule = (
        "a run = 1..5 ranks on 1..3 nodes zip existing containers (ZipZarrContainers) or save and zip in the background (SaveZarrZip, WaitZarrZip in a real "
        "pipeline), with simulated 7z, rm and shell processes of any duration that may fail, be killed, fail to start or print more than a pipe holds, disk errors, "
        "and a crash of everything at any point; at every removal the archive must already hold the data, and at the end archives, sources, reports and waiting are checked"
    )
    real = ("caput.pipeline.tasklib.io", "caput.pipeline", "caput.containers", "caput.memdata", "zarr")
    stub = ("mpi4py (simulated network)", "subprocess, the shell, 7z, rm, mv (simulated processes)", "host names", "clock", "filesystem faults")
    quick_runs = 2500
    thorough_runs = 80000
    assumptions = ("the archive does not exist before",)

    def load(self):
        import caput.pipeline.tasklib.io as tio
        from caput import containers, pipeline
        from caput.pipeline import exceptions
        from caput.pipeline.tasklib import base
        from caput.util import mpitools

        self.pipeline, self.tio, self.mt = pipeline, tio, mpitools
        boxes = self.boxes = {}

        class ZipCont(containers.ContainerPrototype):
            _axes = ("a", "b")
            _dataset_spec = {
                "x": {"axes": ["a", "b"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "a"},
                "y": {"axes": ["b"], "dtype": np.float64, "initialise": True, "distributed": False},
            }

        ZipCont.__module__ = __name__
        globals()["ZipCont"] = ZipCont

        class Src(base.ContainerTask):
            i = 0

            def process(self):
                b = boxes[current().rank]
                if self.i >= len(b.p["items"]):
                    raise exceptions.PipelineStopIteration
                k = self.i
                self.i += 1
                return b.P.make(b, k)

        pipeline.local_tasks["C10Src"] = Src

    # -- programs ----------------------------------------------------------------------
    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 4, 5])
        kind = rng.choice(["zip", "save", "save"])
        hosts = [rng.choice(["nodeA", "node0", "zeta", "c11"]) for _ in range(n)]
        mood = rng.choice(["clean", "clean", "faults", "crash"])
        cfg = {"slow_p": rng.choice([0.0, 0.3, 0.9]), "big_p": rng.choice([0.0, 0.0, 0.3])}
        if mood == "faults":
            for k in ("fail_p", "kill_p", "rm_fail_p", "spawn_p", "err_p"):
                cfg[k] = rng.choice([0.0, 0.0, 0.02, 0.15])
        names = ["out/x_{count}", "x {tag}", "{tag}", "o's/{count}_z", "a&b_{tag}", "p(1)_{count}", "s;{tag}"]
        env = harness.gen_env(rng)
        items = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5])):
            items.append({"tag": rng.choice([None, "T"]), "shape": [rng.choice([1, 2, n, 5]), rng.randrange(1, 4)],
                          "bad": rng.choice([None] * 12 + ["missing", "file", "ext"]) if kind == "zip" else None, "name": rng.choice(["c", "d e", "sub/f", "q'r", "g;h"])})
        return {"n": n, "kind": kind, "hosts": hosts, "remove": rng.choice([None, True, False]), "cfg": cfg, "crash": rng.choice([0.01, 0.05]) if mood == "crash" else 0.0,
                "two": rng.random() < 0.2, "name": rng.choice(names), "chunks": rng.random() < 0.3, "tool": rng.choice(["/usr/bin/7z", "/usr/bin/7z", "/opt/my tools/7z"]),
                "items": items, "env": env, "ops": list(range(len(items)))}

    def directed(self):
        it = {"tag": None, "shape": [2, 2], "bad": None, "name": "c"}
        b = {"n": 2, "kind": "save", "hosts": ["a", "b"], "remove": True, "cfg": {}, "crash": 0.0, "two": False, "name": "out_{count}", "chunks": False, "tool": "/usr/bin/7z",
             "items": [it, dict(it)], "env": dict(harness.QUIET), "ops": [0, 1]}
        return [b, dict(b, name="out put_{count}"), dict(b, cfg={"big_p": 1.0}), dict(b, items=[], ops=[]), dict(b, kind="zip")]

    # -- the data -----------------------------------------------------------------------
    def whole(self, p, k, nm):
        sh = p["items"][k]["shape"]
        return R.make(sh if nm == "x" else sh[1:], "f8", 2 * k + (nm == "y"))

    def make(self, b, k):
        it = b.p["items"][k]
        c = globals()["ZipCont"](a=it["shape"][0], b=it["shape"][1], comm=self.mt.MPI.COMM_WORLD)
        c["x"][:] = R.local_part(self.whole(b.p, k, "x"), 0, b.size, b.rank)
        c["y"][:] = self.whole(b.p, k, "y")
        c.attrs["id"] = k
        if it["tag"]:
            c.attrs["tag"] = f"{it['tag']}{k}"
        return c

    def good_group(self, p, k, g):
        for nm in ("x", "y"):
            if nm not in g:
                return f"dataset {nm} is missing"
            v = g[nm][...]
            if not R.same(v, self.whole(p, k, nm)):
                return f"{nm} {R.describe_diff(v, self.whole(p, k, nm))}"
        if int(g.attrs["id"]) != k:
            return f"attribute id is {g.attrs['id']}"
        return None

    def good_archive(self, p, k, path):
        """None if the archive holds all of item k, else what is wrong."""
        import zarr

        e = procs.zip_entries(path)
        if e is None:
            return "no complete archive"
        try:
            return self.good_group(p, k, zarr.open_group(store=zarr.storage.KVStore(dict(e)), mode="r"))
        except Exception as x:  # noqa: BLE001
            return f"unreadable ({type(x).__name__}: {x})"

    def good_source(self, p, k, path):
        import zarr

        if not F.R["isdir"](path):
            return "no source"
        store = {}
        for dp, dn, fn in os.walk(path):
            for x in fn:
                q = os.path.join(dp, x)
                with F.R["open"](q, "rb") as f:
                    store[os.path.relpath(q, path)] = f.read()
        try:
            return self.good_group(p, k, zarr.open_group(store=zarr.storage.KVStore(store), mode="r"))
        except Exception as x:  # noqa: BLE001
            return f"unreadable ({type(x).__name__}: {x})"

    def paths(self, p):
        """{absolute source: item}"""
        out = {}
        for k, it in enumerate(p["items"]):
            if p["kind"] == "zip":
                out[f"{it['name']}{k}.zarr"] = k
            else:
                tag = f"{it['tag']}{k}" if it["tag"] else k
                for pre in ("", "two_")[: 1 + p["two"]]:
                    out[pre + p["name"].format(tag=tag, count=k) + ".zarr"] = k
        return out

    # -- execution ----------------------------------------------------------------------------
    def execute(self, program, ctx):
        import zarr

        p = copy.deepcopy(program)
        p["items"] = [p["items"][k] for k in p["ops"] if k < len(p["items"])]
        n = p["n"]
        p["hosts"] = p["hosts"][:n]
        d0 = os.path.realpath(ctx.dir())
        root = os.path.join(d0, "fs")
        os.makedirs(root)
        src = {os.path.join(root, k): v for k, v in self.paths(p).items()}
        bad = False
        if p["kind"] == "zip":
            for path, k in src.items():
                b = p["items"][k]["bad"]
                bad |= b is not None
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if b == "missing":
                    continue
                if b == "file":
                    with open(path, "w") as f:
                        f.write("x")
                    continue
                g = zarr.open_group(path + ".bad" if b == "ext" else path, mode="w")
                for nm in ("x", "y"):
                    v = self.whole(p, k, nm)
                    g.create_dataset(nm, data=v, chunks=v.shape if not p["chunks"] else (1,) * v.ndim)
                g.attrs["id"] = k
        self.boxes.clear()
        st = {"done": set(), "handed": {}, "checked": set(), "procs": None}
        params = {} if p["remove"] is None else {"remove": p["remove"]}
        remove = p["remove"] is not False
        T = "caput.pipeline.tasklib.io."
        if p["kind"] == "zip":
            names = [os.path.relpath(x, root) + (".bad" if p["items"][k]["bad"] == "ext" else "") for x, k in src.items()]
            tasks = [{"type": T + "ZipZarrContainers", "params": dict(params, containers=names)}]
        else:
            tasks = [{"type": "C10Src", "out": "c", "params": {"tag": "{tag}"}}]
            for pre in ("", "two_")[: 1 + p["two"]]:
                q = dict(params, output_name=pre + p["name"] + ".zarr.zip")
                if p["chunks"]:
                    q["compression"] = {"x": {"chunks": [1, 2]}}
                tasks += [{"type": T + "SaveZarrZip", "in": "c", "out": pre + "h", "params": q}, {"type": T + "WaitZarrZip", "in": pre + "h"}]
        text = yaml.safe_dump({"pipeline": {"tasks": tasks}}, sort_keys=False)
        what = f"{p['kind']} {n} ranks on {p['hosts']}, remove {p['remove']}, names {[os.path.relpath(x, root) for x in src]}, faults {p['cfg']}"

        def owner(path):
            for s, k in src.items():
                if path == s or path.startswith(s + "/"):
                    return s, k
            return None

        def watch(name, path):
            """Before anything is removed from a source, its archive is complete."""
            if name not in DESTRUCTIVE or ".partial" in path or "__lock" in path:
                return
            o = owner(path)
            if o is None or o[0] in st["checked"] or p["items"][o[1]]["bad"]:
                return
            if name in ("rename", "replace") and path != o[0]:
                return
            if not F.R["exists"](path):
                return
            st["checked"].add(o[0])
            ctx.probe("removals")
            err = self.good_archive(p, o[1], o[0] + ".zip")
            if err:
                raise Violation("data-loss", f"{what}: {os.path.relpath(path, root)} is removed ({name}) while its archive is not complete: {err}")
            if not remove:
                raise Violation("removed", f"{what}: {os.path.relpath(path, root)} is removed though it should be kept")

        def prepare(sim, world):
            cfg = {"root": root, "stat_step": True, "err_p": p["cfg"].get("err_p", 0.0), "err_max": 1, "err_ops": ("create", "write", "unlink"),
                   "err_on": (lambda q: True) if p["kind"] == "zip" else (lambda q: ".zip" in q), "crash_p": p["crash"], "snap": os.path.join(d0, "snap"),
                   "crash_ops": None if p["kind"] == "zip" else ("create", "write", "unlink", "rmdir", "replace", "close")}
            F.attach(cfg)(sim, world)
            sim.fs.watch.append(watch)
            sim.procs = st["procs"] = procs.Procs(sim, root, p["cfg"])
            sim.hostnames = p["hosts"]
            sim.tools = {"7z": p["tool"]}
            st["state"] = RankState(sim, self.tio, n)

        def finish(sim, world):
            st["state"].restore()
            F.detach(sim, world)

        def rank_main(wr):
            b = self.boxes[wr] = Box(p, wr, n, self)
            m = self.pipeline.Manager.from_yaml_str(text)
            for i, t in enumerate(m.tasks):
                if type(t).__name__ == "WaitZarrZip":
                    self.hook(t, i, st, what)
                elif type(t).__name__ == "SaveZarrZip":
                    self.hook_save(t, st)
            m.run()
            return "finished"

        cwd = os.getcwd()
        os.chdir(root)
        try:
            run = ctx.simulate(n, rank_main, p["env"], prepare=prepare, finish=finish)
        finally:
            os.chdir(cwd)
        pr = st["procs"]
        if run.outcome == "crash":
            ctx.probe("crashes")
            for s, k in src.items():
                if p["items"][k]["bad"] or (p["kind"] == "save" and sum(1 for r in range(n) if (s, r) in st["done"]) < n):
                    continue
                q = os.path.join(d0, "snap", os.path.relpath(s, root))
                e1, e2 = self.good_source(p, k, q), self.good_archive(p, k, q + ".zip")
                if e1 and e2:
                    raise Violation("data-loss", f"{what}: after a crash neither source ({e1}) nor archive ({e2}) of {os.path.relpath(s, root)} is complete")
            return
        excs = [e for e in run.real_excs() if e is not None]
        if pr.injected or bad or run.sim.fs.errors:
            ctx.probe("failures")
            if not excs:
                raise Violation("not-reported", f"{what}: jobs failed ({pr.failed[:2]} {run.sim.fs.errors}) and no process raised an error (outcome {run.outcome})")
            for s, k in src.items():
                if p["items"][k]["bad"] or not (F.R["exists"](s) or F.R["exists"](s + ".zip")):
                    if p["kind"] == "zip" and not p["items"][k]["bad"]:
                        raise Violation("data-loss", f"{what}: source and archive of {os.path.relpath(s, root)} are gone")
                    continue
                if p["kind"] == "save" and sum(1 for r in range(n) if (s, r) in st["done"]) < n:
                    continue
                e1, e2 = self.good_source(p, k, s), self.good_archive(p, k, s + ".zip")
                if e1 and e2:
                    raise Violation("data-loss", f"{what}: neither source ({e1}) nor archive ({e2}) of {os.path.relpath(s, root)} is complete; failed: {pr.failed[:3]}")
            return
        ctx.require_clean(run, what)
        harness.require_no_leftovers(run)
        for s, k in src.items():
            e = self.good_archive(p, k, s + ".zip")
            if e:
                raise Violation("wrong-archive", f"{what}: archive of item {k} ({os.path.relpath(s, root)}.zip): {e}; files {sorted(os.listdir(root))}")
            m = pr.archived.count(s + ".zip")
            if m > 1:
                raise Violation("not-once", f"{what}: {os.path.relpath(s, root)} was zipped {m} times")
            e = self.good_source(p, k, s)
            if remove and F.R["exists"](s):
                raise Violation("not-removed", f"{what}: {os.path.relpath(s, root)} was not removed")
            if not remove and e:
                raise Violation("removed", f"{what}: source {os.path.relpath(s, root)} should be kept: {e}")
        found = {os.path.relpath(os.path.join(dp, x), root) for dp, dn, fn in os.walk(root) for x in fn if ".zarr/" not in os.path.join(dp, x)}
        exp = {os.path.relpath(s, root) + ".zip" for s in src}
        if found != exp:
            raise Violation("files", f"{what}: files {sorted(found)}, expected {sorted(exp)}")
        if src:
            ctx.probe("archives", len(src))
        if len(set(p["hosts"])) > 1:
            ctx.probe("several_nodes")

    def hook(self, t, index, st, what):
        """Check that waiting is over only when every job has ended."""
        fin, nxt = t.finish, t.next
        mine = st["handed"].setdefault(index, [])

        def next_(h, *a):
            mine.extend(v for v in vars(h).values() if isinstance(v, procs.SimPopen))
            return nxt(h, *a)

        def finish():
            r = fin()
            left = [j.args for j in mine if j.state != "done"]
            if left:
                raise Violation("not-waited", f"{what}: the waiting task is over while {left} still run")
            return r

        t.finish, t.next = finish, next_

    def hook_save(self, t, st):
        nxt = t.next
        root = os.getcwd()

        def next_(*a):
            h = nxt(*a)
            f = getattr(h, "filename", None)
            if f is not None and f.endswith(".zip"):
                st["done"].add((os.path.normpath(os.path.join(root, f[:-4])), current().rank))
            return h

        t.next = next_


PROP = P()
