"""C08: container tasks in a real pipeline on 1..5 ranks: tags, NaNs, saved files, counts and limits."""

import copy
import json
import os

import numpy as np
import yaml

from .. import harness, models
from ..sched import Violation, current
from . import c04

R = models
REC = np.dtype([("u", np.float64), ("v", np.int32)])


def plain(x):
    """Without the loader's own types."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


class Box:
    """What one rank's tasks saw (filled by the tasks below)."""

    def __init__(self, p, rank, size, P):
        self.p, self.rank, self.size, self.P = p, rank, size, P
        self.got = {"m": [], "m2": []}
        self.calls = []


def opts(rng, two):
    c = {}
    if rng.random() < 0.6:
        c["save"] = rng.random() < 0.85 if not two or rng.random() < 0.5 else [rng.random() < 0.7, rng.random() < 0.7]
    ext = rng.choice([".h5", ".h5", ".zarr"])
    names = ["{tag}_{task}", "out/{task}_{count}_{key}", "{task}{count}_{key}", "sub/{id}/{tag}{key}", "x_{id}_{key}", "$SIMVAR/{key}{count}{task}", "d/e/{key}{tag}{task}"]
    if rng.random() < 0.85 or two:
        if two and rng.random() < 0.5:
            c["output_name"] = [f"a{rng.choice(names)}{ext}", f"b{rng.choice(names)}{ext}"]
        else:
            c["output_name"] = ("{key}" if two else "") + rng.choice(names) + ext
        if c["output_name"] and isinstance(c["output_name"], str) and c["output_name"].startswith("{key}$"):
            c["output_name"] = c["output_name"][5:]
        if isinstance(c["output_name"], list):
            c["output_name"] = [x.replace("a$SIMVAR", "$SIMVAR").replace("b$SIMVAR", "$SIMVAR/b") for x in c["output_name"]]
    elif rng.random() < 0.5:
        c["output_root"] = rng.choice(["root_", "rd/"])
        ext = ".h5"
    else:
        ext = ".h5"
    if rng.random() < 0.3:
        c["output_format"] = "zarr" if ext == ".zarr" else "hdf5"
    if rng.random() < 0.5:
        c["tag"] = rng.choice(["{tag}", "t{count}", "{tag}_{task}", "{key}{count}", "i{id}", "fixed{id}"])
    if rng.random() < 0.4:
        c["attrs"] = rng.choice([{"note": "made by {task} {count} from {tag}"}, {"num": 3, "it": "{input_tags}"}, {"key": "{key}", "old": "{id}"}, {"id2": "{id}", "flag": True}])
        if "it" in c["attrs"]:
            c["attrs"] = dict(c["attrs"])
    for k in ("nan_check", "nan_skip", "nan_dump"):
        if rng.random() < 0.35:
            c[k] = rng.random() < 0.5
    if rng.random() < 0.25:
        c["compression"] = rng.choice([False, {"x": {"chunks": [2, 2]}}, {"x": {"chunks": [1, 3]}, "nope": {"chunks": [2]}}])
    if rng.random() < 0.15:
        c["limit_outputs"] = rng.randrange(1, 4)
    return c


class P(harness.Prop):
    id = "C08"
    title = "Container tasks save, skip and name their outputs consistently on all processes"
    rule = (
        "a run = a pipeline source, task, sink run by the real Manager on 1..5 ranks over 0..6 containers (random shapes, tags, attributes), with random "
        "saving, naming, tagging, attribute, compression, NaN and limit options, NaN or infinity placed on any rank; delivered containers, attributes, "
        "call sequences and the set and contents of files compared with a model"
    )
    real = ("caput.pipeline", "caput.pipeline.tasklib.base", "caput.pipeline.extensions", "caput.config", "caput.containers", "caput.memdata", "caput.mpiarray", "h5py (serial)", "zarr")
    stub = ("mpi4py (simulated network)", "clock", "shared filesystem visibility and locks")
    quick_runs = 2500
    thorough_runs = 100000
    assumptions = ("containers held as common ones are not saved (each process would write them)",)

    def load(self):
        from caput import config, containers, pipeline
        from caput.pipeline import exceptions
        from caput.pipeline.tasklib import base
        from caput.util import mpitools

        self.pipeline, self.ct, self.mt, self.exc = pipeline, containers, mpitools, exceptions
        boxes = self.boxes = {}

        class SimCont(containers.ContainerPrototype):
            _axes = ("a", "b")
            _dataset_spec = {
                "x": {"axes": ["a", "b"], "dtype": np.float64, "initialise": True, "distributed": True, "distributed_axis": "a"},
                "c": {"axes": ["b", "a"], "dtype": np.complex128, "initialise": False, "distributed": True, "distributed_axis": "b"},
                "y": {"axes": ["b"], "dtype": np.float64, "initialise": True, "distributed": False},
                "z": {"axes": ["a"], "dtype": np.int32, "initialise": True, "distributed": True, "distributed_axis": "a", "chunks": (2,), "compression": "gzip"},
                "r": {"axes": ["b"], "dtype": REC, "initialise": True, "distributed": False},
            }

        SimCont.__module__ = __name__
        globals()["SimCont"] = SimCont

        def box():
            return boxes[current().rank]

        class Src(base.ContainerTask):
            i = 0

            def process(self):
                b = box()
                b.calls.append(("src", self.i))
                items = b.p["items"]
                if self.i >= len(items):
                    raise exceptions.PipelineStopIteration
                k = self.i
                self.i += 1
                if self.i == len(items) and b.p["done"]:
                    self.done = True
                if b.p["in2"]:
                    return None if items[k]["none"] else (b.P.make(b, k), b.P.make(b, 200 + k))
                return b.P.make(b, k)

        class Mid(base.ContainerTask):
            seen = 0

            def process(self, x):
                return self.work(x)

            def work(self, x):
                b = box()
                k = int(x.attrs["id"])
                b.calls.append(("mid", k))
                self.seen += 1
                it = b.p["items"][k]
                if it["mid"] == "none":
                    return None
                out = x if it["mid"] == "same" else x.copy()
                b.P.change(b, out, k, 0)
                if not b.p["two"]:
                    return out
                o2 = x.copy()
                b.P.change(b, o2, k, 1)
                return out, o2

        class Mid2(Mid):
            def process(self, x, w):
                if int(w.attrs["id"]) != 200 + int(x.attrs["id"]):
                    raise Violation("outputs", f"item {x.attrs['id']} was processed together with item {w.attrs['id']}")
                return self.work(x)

        class Fin:
            def process_finish(self):
                b = box()
                b.calls.append(("finish", self.seen))
                c = b.P.make(b, 99)
                return (c, b.P.make(b, 98)) if b.p["two"] else c

        class Snk(base.ContainerTask):
            which = config.Property(proptype=str)

            def process(self, x):
                b = box()
                b.calls.append(("snk", self.which))
                if x is not None:
                    b.got[self.which].append(b.P.observe(b, x))

        class MidFin(Fin, Mid):
            pass

        class Mid2Fin(Fin, Mid2):
            pass

        class Pre(base.ContainerTask):
            def process(self, x):
                b = box()
                k = int(x.attrs["id"])
                b.calls.append(("pre", k))
                if b.p["items"][k].get("pre") == "none":
                    return None
                x.attrs["pre"] = k
                return x

        class Post(base.ContainerTask):
            def process(self, x):
                if x is None:
                    raise Violation("calls", "the last of a group of tasks was given nothing to process")
                box().calls.append(("post", int(x.attrs["id"])))
                x.attrs["post"] = 1
                return x

        class PreS(Pre):
            def setup(self, a):
                box().calls.append(("setup", "pre", int(a.attrs["id"])))

        class PostS(Post):
            def setup(self, a, b):
                box().calls.append(("setup", "post", int(a.attrs["id"]), int(b.attrs["id"])))

        class Req(base.ContainerTask):
            def process(self):
                self.done = True
                b = box()
                return tuple(b.P.make(b, 99 - q) for q in range(4))

        for c in (Src, Mid, MidFin, Mid2, Mid2Fin, Snk, Req):
            pipeline.local_tasks["C08" + c.__name__] = c
        for q in range(8):
            parts = (PreS if q & 1 else Pre, MidFin if q & 4 else Mid, PostS if q & 2 else Post)
            g = type(f"Grp{q}", (base.group_tasks(*parts),), {})
            pipeline.local_tasks["C08" + g.__name__] = g

    # -- programs -------------------------------------------------------------------
    def generate(self, rng, i):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5])
        two = rng.random() < 0.3
        items = []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 6])):
            nan = []
            if rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2])):
                    nan.append([rng.choice(["s", "m", "m", "m2"]), rng.choice(["x", "x", "c", "y"]), rng.randrange(1000), rng.choice(["nan", "nan", "inf", "-inf"]), rng.randrange(n)])
            items.append({"tag": rng.choice([None, None, "T"]), "shape": [rng.choice([1, 2, n, n + 1, 5]), rng.randrange(1, 5)], "c": rng.random() < 0.4, "nan": nan,
                          "none": rng.random() < 0.12, "mid": rng.choice(["copy", "copy", "copy", "same", "none"]), "mtag": rng.choice(["keep", "keep", "del", "set"]),
                          "attr": rng.choice(c04.ATTRS[:9]), "redist": rng.choice([None, None, "b"])})
        fin = rng.random() < 0.3
        in2 = rng.random() < 0.3
        if in2:
            for it in items:
                it["nan"] = [x for x in it["nan"] if x[0] != "s"]
                it["wtag"] = rng.choice([None, "W"])
        src, mid = opts(rng, in2), opts(rng, two)
        if fin and "it" in mid.get("attrs", {}):
            del mid["attrs"]["it"]  # outputs made at the end have no inputs
        common = rng.random() < 0.15
        if common:
            for c in (src, mid):
                c["nan_dump"] = False
                c.pop("save", None)
        grp = None
        if not in2 and not two and rng.random() < 0.25:
            grp = rng.randrange(4)
            for it in items:
                it["pre"] = rng.choice(["pass", "pass", "pass", "none"])
        return {"n": n, "common": common, "grp": grp, "items": items, "two": two, "done": rng.random() < 0.4, "fin": fin, "in2": in2, "src": src, "mid": mid,
                "versions": rng.random() < 0.3, "save_config": rng.random() < 0.8, "env": harness.gen_env(rng), "ops": list(range(len(items)))}

    def directed(self):
        env = dict(harness.QUIET)
        it = {"tag": None, "shape": [3, 2], "c": False, "nan": [], "none": False, "mid": "copy", "mtag": "del", "attr": c04.ATTRS[0], "redist": None}
        base = {"n": 2, "two": False, "in2": False, "done": False, "fin": True, "src": {}, "mid": {"save": True}, "versions": False, "save_config": True, "env": env, "items": [it, dict(it)], "ops": [0, 1]}
        nan = dict(it, nan=[["m", "x", 5, "nan", 1]])
        return [base, dict(base, mid={"save": True, "output_format": "hdf5", "output_name": "{count}.h5"}), dict(base, items=[nan, it], ops=[0, 1]),
                dict(base, mid={"save": True, "output_name": "{key}{tag}.h5"}, two=True, items=[nan, it], fin=False), dict(base, src={"tag": ""}, mid={"save": True})]

    # -- the data ----------------------------------------------------------------------
    def whole(self, p, k, name):
        sh = p["items"][k]["shape"] if k < 90 else [3, 2]
        shape = {"x": sh, "c": sh[::-1], "y": sh[1:], "z": sh[:1], "r": sh[1:]}[name]
        if name == "r":
            v = np.zeros(shape, REC)
            v["u"], v["v"] = np.arange(shape[0]) + k / 8, np.arange(shape[0]) - k
            return v
        return R.make(shape, {"x": "f8", "c": "c16", "y": "f8", "z": "i4"}[name], k * 4 + "xcyz".index(name))

    def names(self, p, k):
        return ["x", "y", "z", "r"] + (["c"] if k < 90 and p["items"][k]["c"] else [])

    def poison(self, p, k, stage, g, rank):
        """The whole arrays after NaNs were put in at this stage, as seen by *rank*."""
        if k >= 90:
            return g
        for st, name, idx, kind, r in p["items"][k]["nan"]:
            if st == stage and name in g and g[name].size and (r == rank or name != "y" and not p.get("common")):
                g[name].flat[idx % g[name].size] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[kind]
        return g

    def put(self, b, cont, g):
        for name, v in g.items():
            ds = cont[name]
            ds[:] = v if not getattr(ds, "distributed", False) else R.local_part(v, ds.distributed_axis, b.size, b.rank)

    def make(self, b, k):
        p = b.p
        it = p["items"][k] if k < 90 else None
        if k >= 200:
            c = self.make(b, 99)
            c.attrs["id"] = k
            if p["items"][k - 200]["wtag"]:
                c.attrs["tag"] = f"W{k - 200}"
            self.put(b, c, {nm: self.whole(p, k, nm) for nm in self.names(p, k)})
            return c
        if it and it["none"]:
            return None
        sh = it["shape"] if it else [3, 2]
        c = globals()["SimCont"](a=sh[0], b=sh[1], comm=self.mt.MPI.COMM_WORLD, **({"distributed": False} if p.get("common") else {}))
        if it and it["c"]:
            c.add_dataset("c")
        c.attrs["id"] = k
        if it:
            c.attrs["extra"] = c04.attr_value(it["attr"])
            if it["tag"]:
                c.attrs["tag"] = f"{it['tag']}{k}"
        g = self.poison(p, k, "s", {nm: self.whole(p, k, nm) for nm in self.names(p, k)}, b.rank)
        self.put(b, c, g)
        if it and it["redist"] and not p.get("common"):
            c.redistribute(it["redist"])
        return c

    def state_mid(self, p, k, j, rank):
        """Whole arrays of output j of the middle task for item k."""
        g = self.poison(p, k, "s", {nm: self.whole(p, k, nm) for nm in self.names(p, k)}, rank)
        if k < 90:
            g["x"] = g["x"] * (j + 2)
            if j == 1 and p["items"][k]["mid"] == "same":
                g["x"] = g["x"] * 2  # the second output is a copy of the changed input
                self.poison(p, k, "m", g, rank)
            self.poison(p, k, "m" if j == 0 else "m2", g, rank)
        return g

    def change(self, b, out, k, j):
        self.put(b, out, self.state_mid(b.p, k, j, b.rank))
        t = b.p["items"][k]["mtag"]
        if t == "del" and "tag" in out.attrs:
            del out.attrs["tag"]
        elif t == "set":
            out.attrs["tag"] = f"set{k}"

    def observe(self, b, x):
        at = {k: c04.norm(v) for k, v in x.attrs.items() if not k.startswith("__memh5")}
        d = {nm: (np.array(x[nm][:]).copy(), getattr(x[nm], "distributed_axis", None)) for nm in x.keys()}
        h = x.history
        return at, d, {k: plain(h[k]) for k in h["order"]}

    def mid_name(self, p):
        if p.get("grp") is not None:
            return f"Grp{p['grp'] + 4 * p['fin']}"
        return "Mid" + "2" * p["in2"] + "Fin" * p["fin"]

    # -- the model -----------------------------------------------------------------------
    def model(self, p):
        """-> calls, deliveries {key: [(item, j, attrs, saved)]}, files {name: (item, j, stage, attrs)}"""
        calls, files = [], {}
        got = {"m": [], "m2": []}
        VAR = {"$SIMVAR": os.environ.get("SIMVAR", "")}

        def run(cfg, task, key, count, item, j, attrs, stage, two):
            """One output -> (attrs, delivered, saved)"""
            tag = attrs.get("tag", None)
            if tag is None:
                it = attrs.get("input_tags")
                tag = it[0] if it and it[0] else count
            d = dict(attrs)
            d.update(tag=tag, count=count, task=task, key=key, output_root=cfg.get("output_root", ""))
            new = dict(cfg.get("attrs") or {})
            new["tag"] = cfg.get("tag", "{tag}")
            for k, v in new.items():
                attrs[k] = v.format(**d) if isinstance(v, str) else v
            bad = False
            for r in range(p["n"]):
                g = self.state_mid(p, item, j, r) if stage == "m" else self.poison(p, item, "s", {nm: self.whole(p, item, nm) for nm in self.names(p, item)}, r)
                bad |= any(not np.isfinite(v).all() for nm, v in g.items() if nm != "r")
            if bad and cfg.get("nan_check", True):
                if cfg.get("nan_dump", True):
                    files[f"nandump_{task}_{attrs['tag']}.h5"] = (item, j, stage, dict(attrs))
                if cfg.get("nan_skip", True):
                    return None
            save = cfg.get("save", False)
            save = save[j] if isinstance(save, list) else save
            if save:
                d = dict(attrs)
                d.update(tag=attrs["tag"], count=count, task=task, key=key, output_root=cfg.get("output_root", ""))
                nm = cfg.get("output_name", "{output_root}{tag}.h5")
                nm = (nm[j] if isinstance(nm, list) else nm).format(**d)
                for a, v in VAR.items():
                    nm = nm.replace(a, v)
                files[os.path.normpath(nm)] = (item, j, stage, dict(attrs))
            return attrs, save

        mid_name = self.mid_name(p)
        grp = p.get("grp")
        if grp is not None and grp & 1:
            calls.append(("setup", "pre", 99))
        if grp is not None and grp & 2:
            calls.append(("setup", "post", 98 if grp & 1 else 99, 97 if grp & 1 else 98))
        queue = []
        count, outs = 0, 0
        i = 0
        cs, cm = p["src"], p["mid"]
        while True:
            if i == len(p["items"]) and p["done"] and i > 0:
                break
            calls.append(("src", i))
            if i >= len(p["items"]):
                break
            it = p["items"][i]
            i += 1
            if it["none"]:
                continue
            at = {"id": i - 1, "extra": c04.attr_value(it["attr"]), "input_tags": []}
            if it["tag"]:
                at["tag"] = f"{it['tag']}{i - 1}"
            r = run(cs, "Src", "s", count, i - 1, 0, at, "s", False)
            wt = None
            if p["in2"]:
                w = {"id": 199 + i, "input_tags": []}
                if it["wtag"]:
                    w["tag"] = f"W{i - 1}"
                wt = str(run(cs, "Src", "w", count, 199 + i, 1, w, "s", True)[0]["tag"])
            count += 1
            if r is not None:
                queue.append((i - 1, r[0], r[1], wt))
                outs += 1
                if cs.get("limit_outputs") is not None and outs >= cs["limit_outputs"]:
                    break
        count, outs, seen = 0, 0, 0
        for item, at, hsave, wt in queue:
            it = p["items"][item]
            if grp is not None:
                calls.append(("pre", item))
                if it["pre"] == "none":
                    continue
            seen += 1
            calls.append(("mid", item))
            if it["mid"] == "none":
                continue
            if grp is not None:
                calls.append(("post", item))
            res = []
            for j in range(2 if p["two"] else 1):
                a = dict(at)
                if it["mtag"] == "del":
                    a.pop("tag", None)
                elif it["mtag"] == "set":
                    a["tag"] = f"set{item}"
                if grp is not None:
                    a["pre"], a["post"] = item, 1
                a["input_tags"] = [str(at["tag"])] + ([] if wt is None else [wt])
                res.append(run(cm, mid_name, ["m", "m2"][j] , count, item, j, a, "m", p["two"]))
            count += 1
            for j, r in enumerate(res):
                if r is not None:
                    got[["m", "m2"][j]].append((item, j, r[0], hsave, r[1]))
            if p["two"] or res[0] is not None:
                outs += 1
                if cm.get("limit_outputs") is not None and outs >= cm["limit_outputs"]:
                    break
        if p["fin"]:
            calls.append(("finish", seen))
            for j in range(2 if p["two"] else 1):
                r = run(cm, mid_name, ["m", "m2"][j], count, 99 - j, j, {"id": 99 - j}, "f", p["two"])
                if r is not None:
                    got[["m", "m2"][j]].append((99 - j, j, r[0], False, r[1]))
        return calls, got, files

    # -- execution ---------------------------------------------------------------------------
    def execute(self, program, ctx):
        p = copy.deepcopy(program)
        p["items"] = [p["items"][k] for k in p["ops"] if k < len(p["items"])]
        n = p["n"]
        for it in p["items"]:
            for x in it["nan"]:
                x[4] %= n
        d0 = ctx.dir()
        os.environ["SIMVAR"] = "var/deep"
        calls, got, files = self.model(p)
        tasks = [{"type": "C08Src", "out": ["s", "w"] if p["in2"] else "s", "params": p["src"]},
                 {"type": "C08" + self.mid_name(p), "in": ["s", "w"] if p["in2"] else "s", "out": ["m", "m2"] if p["two"] else "m", "params": p["mid"]},
                 {"type": "C08Snk", "in": "m", "params": {"which": "m"}}]
        nreq = {None: 0, 0: 0, 1: 1, 2: 2, 3: 3}[p.get("grp")]
        if nreq:
            tasks.insert(0, {"type": "C08Req", "out": [f"q{q}" for q in range(4)]})
            tasks[2]["requires"] = [f"q{q}" for q in range(nreq)]
        if p["two"]:
            tasks.append({"type": "C08Snk", "in": "m2", "params": {"which": "m2"}})
        doc = {"pipeline": {"tasks": tasks, "save_config": p["save_config"]}}
        if p["versions"]:
            doc["pipeline"]["save_versions"] = "numpy"
        text = yaml.safe_dump(doc, sort_keys=False)
        p["doc"] = yaml.safe_load(text)
        self.boxes.clear()
        what0 = f"source {p['src']} task {p['mid']} two {p['two']} fin {p['fin']} items {[(x['tag'], x['mid'], x['mtag'], x['nan'], x['none']) for x in p['items']]}"

        def rank_main(wr):
            b = self.boxes[wr] = Box(p, wr, n, self)
            m = self.pipeline.Manager.from_yaml_str(text)
            m.run()
            left = [str(t) for t in m.tasks if t is not None]
            if left:
                raise Violation("unfinished", f"{what0}: tasks {left} were never finished on rank {wr}")
            self.check_rank(p, b, calls, got, what0)

        cwd = os.getcwd()
        os.chdir(d0)
        try:
            run = ctx.simulate(n, rank_main, p["env"])
        finally:
            os.chdir(cwd)
        ctx.require_clean(run, what0)
        harness.require_no_leftovers(run)
        self.check_files(p, d0, files, what0)
        if files:
            ctx.probe("files", len(files))
        if any(k.startswith("nandump") for k in files):
            ctx.probe("nan")

    def check_rank(self, p, b, calls, got, what):
        a = [c for c in b.calls if c[0] != "snk"]
        for kind in ("src", "setup", "pre", "mid", "post", "finish"):
            x, y = [c for c in a if c[0] == kind], [c for c in calls if c[0] == kind]
            if x != y:
                raise Violation("calls", f"{what}: rank {b.rank}: {kind} was called for {x}, expected {y}")
        for key, exp in got.items():
            obs = b.got[key]
            if [o[0].get("id") for o in obs] != [c04.norm(e[0]) for e in exp]:
                raise Violation("outputs", f"{what}: rank {b.rank}: key {key} delivered items {[o[0].get('id') for o in obs]}, expected {[e[0] for e in exp]}")
            for (at, d, hist), (item, j, attrs, h0, h1) in zip(obs, exp):
                w = f"{what}: rank {b.rank} item {item} key {key}"
                self.check_attrs(at, attrs, w)
                g = self.state_mid(p, item, j, b.rank)
                if set(d) != set(g):
                    raise Violation("outputs", f"{w}: datasets {sorted(d)}, expected {sorted(g)}")
                for nm, (v, ax) in d.items():
                    e = g[nm] if ax is None else R.local_part(g[nm], ax, b.size, b.rank)
                    if not R.same(v, e):
                        raise Violation("wrong-data", f"{w}: {nm} {R.describe_diff(v, e)}")
                want = {"versions": {"numpy": np.__version__} if p["versions"] else {}, "config": p["doc"] if p["save_config"] else {}} if h0 or h1 else {}
                if p["items"] and item < 90 and p["items"][item]["mid"] == "same" and p["two"]:
                    continue  # both outputs are the input's history
                if set(hist) != set(want):
                    raise Violation("history", f"{w}: history {sorted(hist)}, expected {sorted(want)}")
                for k in want:
                    if hist[k] != want[k]:
                        raise Violation("history", f"{w}: history entry {k} is {hist[k]!r}, expected {want[k]!r}")

    def check_attrs(self, at, attrs, w):
        e = {k: c04.norm(v) for k, v in attrs.items()}
        for k in e.keys() | at.keys():
            if k == "input_tags" and not attrs.get(k) and not len(at.get(k) or ()):
                continue
            if k not in at or k not in e or at[k] != e[k]:
                raise Violation("attrs", f"{w}: attribute {k} is {at.get(k)!r}, expected {e.get(k)!r}")

    def check_files(self, p, d0, files, what):
        found = {}
        for dp, dn, fn in os.walk(d0):
            for x in list(dn):
                if x.endswith((".zarr", ".zr")):
                    found[os.path.relpath(os.path.join(dp, x), d0)] = "zarr"
                    dn.remove(x)
            for x in fn:
                found[os.path.relpath(os.path.join(dp, x), d0)] = "h5"
        if set(found) != set(files):
            raise Violation("files", f"{what}: files {sorted(found)}, expected {sorted(files)}")
        for nm, (item, j, stage, attrs) in files.items():
            path = os.path.join(d0, nm)
            w = f"{what}: file {nm}"
            if found[nm] == "h5":
                import h5py

                with h5py.File(path, "r") as f:
                    data = {k: f[k][...] for k in f if k in "xcyzr"}
                    at = dict(f.attrs)
                    hist = dict(f["history"].attrs)
                    ax = {k: [x.decode() if isinstance(x, bytes) else str(x) for x in f[k].attrs["axis"]] for k in data}
            else:
                import zarr

                f = zarr.open(path, "r")
                data = {k: f[k][...] for k in f if k in "xcyzr"}
                at = dict(f.attrs)
                hist = dict(f["history"].attrs)
                ax = {}
                for k in data:
                    a = f[k].attrs["axis"]
                    ax[k] = json.loads(a.split(":", 1)[1]) if isinstance(a, str) else [str(x) for x in a]
            g = self.state_mid(p, item, j, 0) if stage == "m" else self.poison(p, item, "s", {k: self.whole(p, item, k) for k in self.names(p, item)}, 0)
            if set(data) != set(g):
                raise Violation("file-content", f"{w}: datasets {sorted(data)}, expected {sorted(g)}")
            for k, v in g.items():
                if not R.same(data[k], v):
                    raise Violation("file-content", f"{w}: {k} {R.describe_diff(data[k], v)}")
                if ax[k] != {"x": ["a", "b"], "c": ["b", "a"], "y": ["b"], "z": ["a"], "r": ["b"]}[k]:
                    raise Violation("file-content", f"{w}: axes of {k} are {ax[k]}")
            for k in ("tag", "id"):
                if str(at.get(k)) != str(attrs[k]):
                    raise Violation("file-content", f"{w}: attribute {k} is {at.get(k)!r}, expected {attrs[k]!r}")
            if not nm.startswith("nandump") and not {"versions", "config"} <= set(hist):
                raise Violation("file-content", f"{w}: history {sorted(hist)}")


PROP = P()
