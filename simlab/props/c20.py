"""C20: containers made from definitions, copied and redistributed, in random histories on 1..6 ranks."""

import copy
import os
import warnings

import numpy as np

from .. import harness, models
from ..sched import Violation
from . import c04

R = models
AXN = ["a", "b", "c", "t"]


class MD:
    """A dataset of the model."""

    def __init__(self, g, axes, dist, attrs):
        self.g, self.axes, self.dist, self.attrs = g, list(axes), dist, dict(attrs)


class MC:
    """A container of the model."""

    def __init__(self, cls, dist):
        self.cls, self.dist = cls, dist
        self.axes, self.axattrs, self.rev, self.d, self.attrs, self.hist = {}, {}, {}, {}, {}, []

    def clone(self):
        return copy.deepcopy(self)


class P(harness.Prop):
    id = "C20"
    title = "Containers keep axes, datasets and history consistent on every process"
    rule = (
        "a run = a random hierarchy of container (or table) definitions and a random history of 3..12 operations on up to 5 containers over 1..6 ranks "
        "(create, add and write datasets, redistribute by name, number or list, copy_from, axes_from, dsets_from, empty_like, copy, save and load with selections, attributes, history, "
        "index maps), compared after every operation with a model of all containers"
    )
    real = ("caput.containers", "caput.memdata", "caput.mpiarray", "h5py (serial)", "zarr")
    stub = ("mpi4py (simulated network)", "clock", "shared filesystem visibility", "hash order of sets (differs per rank)")
    quick_runs = 5000
    thorough_runs = 250000
    assumptions = ("copies keep the communicator and the distributed setting of their source",)

    def load(self):
        from caput import containers
        from caput.memdata import fileformats
        from caput.util import mpitools

        self.ct = containers
        self.mt = mpitools
        self.ff = fileformats

    # -- programs ------------------------------------------------------------------
    def gen_spec(self, rng, q):
        axes = rng.sample(AXN, rng.choice([1, 1, 2, 2, 3]))
        s = {"axes": axes, "dtype": rng.choice(["f8", "f4", "i4", "c16", "?", "rec"]), "initialise": rng.choice([True, True, False, None]),
             "distributed": rng.choice([True, True, True, None, None, False]), "distributed_axis": rng.choice([None, rng.choice(axes), rng.choice(axes)]),
             "chunks": [rng.randrange(1, 5) for _ in axes] if rng.random() < 0.2 else None}
        if rng.random() < 0.1:
            s["axes"] = axes + [rng.randrange(1, 4)]
            if s["chunks"]:
                s["chunks"].append(2)
        return s

    def generate(self, rng, i):
        n = R.gen_n(rng)
        names = [f"{rng.choice('pqrstuvw')}{k}" for k in range(rng.randrange(1, 6))]
        spec = {nm: self.gen_spec(rng, k) for k, nm in enumerate(names)}
        base = [nm for nm in names if rng.random() < 0.7]
        over = {}
        for nm in base:
            if rng.random() < 0.3:
                over[nm] = dict(spec[nm], initialise=rng.choice([True, False]), distributed_axis=rng.choice([None] + [x for x in spec[nm]["axes"] if isinstance(x, str)]))
        tables = {}
        if rng.random() < 0.3:
            for k in range(rng.randrange(1, 3)):
                tables[f"tab{k}"] = {"columns": [["ra", "f8"], ["z", "i4"]][: rng.randrange(1, 3)], "axis": rng.choice([None, "t", "row"]),
                                     "initialise": rng.choice([None, True, False]), "distributed": rng.choice([None, False, True])}
        ops = []
        for _ in range(rng.randrange(3, 13)):
            k = rng.choice(["new", "add", "write", "write", "redist", "redist", "redist", "copy", "copy", "copy", "attr", "attr", "hist", "imap", "deep", "file", "check"])
            ops.append([k, rng.randrange(8), rng.randrange(1 << 30)])
        ops[0] = ["new", 0, ops[0][2]]
        return {"n": n, "spec": spec, "base": base, "over": over, "tables": tables, "ops": ops, "comm": rng.choice(["world", "world", "split", "reverse"]),
                "dist": rng.random() < 0.85, "env": harness.gen_env(rng)}

    def directed(self):
        env = dict(harness.QUIET)
        s = {"axes": ["a", "b"], "dtype": "f8", "initialise": True, "distributed": True, "distributed_axis": "a", "chunks": None}
        base = {"n": 2, "spec": {"p0": s}, "base": ["p0"], "over": {}, "tables": {}, "comm": "world", "dist": True, "env": env}
        return [dict(base, ops=[["new", 0, k], ["redist", 0, k + 1], ["copy", 0, k + 2], ["copy", 0, k + 3], ["redist", 1, k + 9]]) for k in range(12)]

    # -- the classes of a program ----------------------------------------------------
    def classes(self, p):
        def full(s):
            d = {"axes": list(s["axes"]), "dtype": R.dtype_of(s["dtype"])}
            for k in ("initialise", "distributed", "distributed_axis"):
                if s[k] is not None:
                    d[k] = s[k]
            if s["chunks"]:
                d["chunks"] = tuple(s["chunks"])
            return d

        def axes(specs):
            return tuple(sorted({x for s in specs for x in s["axes"] if isinstance(x, str)}))

        bs = {k: v for k, v in p["spec"].items() if k in p["base"]}
        ds = {k: v for k, v in p["spec"].items() if k not in p["base"]}
        ds.update(p["over"])
        top = (self.ct.TableSpec,) if p["tables"] else (self.ct.ContainerPrototype,)
        ns = {"_axes": axes(bs.values()), "_dataset_spec": {k: full(v) for k, v in bs.items()}, "__module__": __name__}
        if p["tables"]:
            t = {}
            for k, v in p["tables"].items():
                t[k] = {"columns": [(a, b) for a, b in v["columns"]]}
                for z in ("axis", "initialise", "distributed"):
                    if v[z] is not None:
                        t[k][z] = v[z]
            ns["_table_spec"] = t
        base = type("Base", top, ns)
        der = type("Derived", (base,), {"_axes": axes(ds.values()), "_dataset_spec": {k: full(v) for k, v in ds.items()}, "__module__": __name__})

        def resolved(specs):
            out = {}
            for k, s in specs.items():
                out[k] = {"axes": s["axes"], "dtype": R.dtype_of(s["dtype"]), "init": bool(s["initialise"]), "dist": s["distributed"] is not False,
                          "ax": s["axes"].index(s["distributed_axis"]) if s["distributed_axis"] else 0}
            for k, t in p["tables"].items():
                out[k] = {"axes": [t["axis"] or k + "_index"], "dtype": np.dtype([(a, b) for a, b in t["columns"]]),
                          "init": t["initialise"] is not False, "dist": bool(t["distributed"]), "ax": 0}
            return out

        return (base, der), (resolved(bs), resolved({**bs, **ds}))

    def execute(self, program, ctx):
        p = program
        if not p["ops"]:
            return
        MPI = self.mt.MPI
        classes, specs = self.classes(p)
        d0 = ctx.dir()
        globals().update({c.__name__: c for c in classes})

        def rank_main(wr):
            comm = MPI.COMM_WORLD
            color = 0
            if p["comm"] == "split":
                color = wr % 2
                comm = comm.Split(wr % 2, wr)
            elif p["comm"] == "reverse":
                comm = comm.Split(0, -wr)
            h = H(self, p, classes, specs, comm, d0, color)
            h.play()
            return color, [(c.axes, list(c.dataset_spec), list(c.index_map), list(c.keys())) for c in h.c]

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run = ctx.simulate(p["n"], rank_main, p["env"])
        ctx.require_clean(run, "containers:")
        harness.require_no_leftovers(run)
        first = {}
        for r, (color, orders) in enumerate(run.results):
            for j, (x, y) in enumerate(zip(orders, first.setdefault(color, orders))):
                if x != y:
                    raise Violation("rank-order", f"container {j}: axes, definition, index maps and datasets are ordered {x} on rank {r}, {y} on another rank")


class H:
    """One rank's containers and their model."""

    def __init__(self, P, p, classes, specs, comm, d0, color):
        self.dir, self.color, self.nfile = d0, color, 0
        self.P, self.p, self.classes, self.specs, self.comm = P, p, classes, specs, comm
        self.size, self.rank = comm.Get_size(), comm.Get_rank()
        self.c, self.m = [], []
        self.salt = 0
        self.cur = None

    def play(self):
        for q, (kind, slot, seed) in enumerate(self.p["ops"]):
            rng = harness.rng_for(seed)
            if kind != "new" and not self.c:
                continue
            if kind in ("new", "copy", "deep", "file") and len(self.c) >= 5:
                k = rng.randrange(5)
                del self.c[k], self.m[k]
            k = slot % len(self.c) if self.c else 0
            self.cur = f"op {q} {kind}"
            getattr(self, "op_" + kind)(k, rng)
            for j in range(len(self.c)):
                self.check(j)

    # -- operations ----------------------------------------------------------------
    def fill(self, c, m, name):
        md = m.d[name]
        self.salt += 1
        md.g = R.make([x if isinstance(x, int) else len(m.axes[x]) for x in md.axes], md.g, self.salt) if isinstance(md.g, np.dtype) else R.make(
            md.g.shape, md.g.dtype, self.salt)
        ds = c[name]
        if md.dist is None:
            ds[:] = md.g
        else:
            ds[:] = R.local_part(md.g, md.dist, self.size, self.rank)

    def axis_value(self, rng, x):
        L = max(0, R.gen_len(rng, self.size))
        if L == 0 and rng.random() < 0.7:
            L = 2
        f = rng.choice(["int", "npint", "arr", "rec"])
        if f == "int":
            return L, np.arange(L)
        if f == "npint":
            return np.int64(L), np.arange(L)
        if f == "arr":
            return (lambda v: (v, v.copy()))(rng.randrange(50) + 0.5 * np.arange(L))
        v = np.zeros(L, [("centre", "f8"), ("width", "f8")])
        v["centre"] = np.arange(L) * 2
        return v, v.copy()

    def axes_of(self, k):
        return sorted({x for s in self.specs[k].values() for x in s["axes"] if isinstance(x, str)})

    def created(self, c, m, k, names, fill=True):
        for nm in names:
            s = self.specs[k][nm]
            m.d[nm] = MD(s["dtype"], s["axes"], s["ax"] if s["dist"] and m.dist else None, {})
            if fill:
                self.fill(c, m, nm)

    def op_new(self, _, rng):
        k = rng.randrange(2)
        m = MC(k, self.p["dist"])
        kw = {}
        for x in self.axes_of(k):
            kw[x], m.axes[x] = self.axis_value(rng, x)
            m.axattrs[x] = {}
        skip = rng.random() < 0.2
        if skip:
            kw["skip_datasets"] = True
        if rng.random() < 0.2:
            kw["allow_chunked"] = rng.random() < 0.5
        c = self.classes[k](distributed=m.dist, comm=self.comm, **kw)
        self.cur += f" {kw}"
        names = [] if skip else [nm for nm, s in self.specs[k].items() if s["init"]]
        if sorted(c.datasets) != sorted(names):
            raise Violation("datasets", f"{self.cur}: a new container has {sorted(c.datasets)}, the definition says {sorted(names)}")
        self.created(c, m, k, names)
        self.c.append(c)
        self.m.append(m)

    def op_add(self, j, rng):
        c, m = self.c[j], self.m[j]
        left = sorted(set(self.specs[m.cls]) - set(m.d))
        if not left:
            return
        nm = rng.choice(left)
        if any(isinstance(x, str) and x not in m.axes for x in self.specs[m.cls][nm]["axes"]):
            return
        self.cur += f" {nm}"
        c.add_dataset(rng.choice(["", "/"]) + nm)
        self.created(c, m, m.cls, [nm])

    def op_write(self, j, rng):
        c, m = self.c[j], self.m[j]
        if m.d:
            nm = rng.choice(sorted(m.d))
            self.cur += f" {nm} of {j}"
            self.fill(c, m, nm)

    def op_redist(self, j, rng):
        c, m = self.c[j], self.m[j]

        def one():
            return rng.choice(AXN + ["row", "nope", 0, 1, 2, -1, -2, -3, 5, "a", "b"])

        arg = one() if rng.random() < 0.5 else [one() for _ in range(rng.randrange(1, 4))]
        if isinstance(arg, list) and rng.random() < 0.3:
            arg = tuple(arg)
        self.cur += f" {j} over {arg!r}"
        c.redistribute(arg)
        for md in m.d.values():
            if md.dist is None:
                continue
            nd = md.g.ndim
            for a in arg if isinstance(arg, list | tuple) else [arg]:
                if isinstance(a, str):
                    if a not in md.axes:
                        continue
                    md.dist = md.axes.index(a)
                    break
                if -nd <= a < nd:
                    md.dist = a % nd
                    break

    def op_copy(self, j, rng):
        c, m = self.c[j], self.m[j]
        how = rng.choice(["copy_from", "copy_from", "copy_from", "empty_like", "axes_attrs", "axes_dsets", "axes"])
        k = m.cls if how == "empty_like" else rng.choice([m.cls, rng.randrange(2)])
        new = MC(k, m.dist)
        kw = {}
        for x in self.axes_of(k):
            if x not in m.axes or rng.random() < 0.15:
                kw[x], new.axes[x] = self.axis_value(rng, x)
                new.axattrs[x] = {}
            else:
                new.axes[x] = m.axes[x].copy()
                new.axattrs[x] = dict(m.axattrs[x])
        changed = set(kw)
        skip = rng.random() < 0.2
        if skip:
            kw["skip_datasets"] = True
        kw.update(distributed=m.dist, comm=self.comm)
        src = {"copy_from": ["copy_from"], "empty_like": [], "axes_attrs": ["axes_from", "attrs_from"], "axes_dsets": ["axes_from", "dsets_from"], "axes": ["axes_from"]}[how]
        self.cur += f" {how} of {j} class {m.cls}->{k} changed {sorted(changed)} skip {skip}; source {[(nm, x.dist) for nm, x in sorted(m.d.items())]}"
        cls = self.classes[k]
        d = self.P.ct.empty_like(c, **kw) if how == "empty_like" else cls(**{s: c for s in src}, **kw)
        if type(d) is not cls:
            raise Violation("wrong-type", f"{self.cur}: got a {type(d).__name__}")
        names = [] if skip else [nm for nm, s in self.specs[k].items() if s["init"]]
        copied = []
        if how in ("copy_from", "axes_dsets"):
            copied = [nm for nm in self.specs[k] if nm in m.d and not set(m.d[nm].axes) & changed]
        both = sorted(set(names) | set(copied))
        if sorted(d.datasets) != both:
            raise Violation("datasets", f"{self.cur}: has {sorted(d.datasets)}, expected {both}")
        self.created(d, new, k, [x for x in both if x not in copied])
        for nm in copied:
            s = self.specs[k][nm]
            md = new.d[nm] = MD(m.d[nm].g.copy(), s["axes"], None, {})
            if s["dist"] and new.dist:
                md.dist = d[nm].distributed_axis
                if md.dist not in (s["ax"], m.d[nm].dist):
                    raise Violation("wrong-axis", f"{self.cur}: {nm} is distributed over axis {md.dist}")
        if how in ("copy_from", "empty_like", "axes_attrs"):
            new.attrs = dict(m.attrs)
            for nm in new.d:
                if nm in m.d:
                    new.d[nm].attrs = dict(m.d[nm].attrs)
        self.c.append(d)
        self.m.append(new)

    def op_deep(self, j, rng):
        c, m = self.c[j], self.m[j]
        f = rng.choice(["copy", "deepcopy"])
        self.cur += f" {f} of {j}"
        self.c.append(c.copy() if f == "copy" else copy.deepcopy(c))
        self.m.append(m.clone())

    def op_attr(self, j, rng):
        c, m = self.c[j], self.m[j]
        v = rng.choice(c04.ATTRS[:9])
        k = f"k{rng.randrange(3)}"
        where = rng.choice(["root", "dset", "axis"])
        self.cur += f" {where} {k} of {j}"
        if where == "root":
            c.attrs[k], m.attrs[k] = c04.attr_value(v), c04.norm(c04.attr_value(v))
        elif where == "dset" and m.d:
            nm = rng.choice(sorted(m.d))
            c[nm].attrs[k], m.d[nm].attrs[k] = c04.attr_value(v), c04.norm(c04.attr_value(v))
        elif where == "axis" and m.axes:
            x = rng.choice(sorted(m.axes))
            c.index_attrs[x][k], m.axattrs[x][k] = c04.attr_value(v), c04.norm(c04.attr_value(v))

    def op_hist(self, j, rng):
        c, m = self.c[j], self.m[j]
        nm = f"h{rng.randrange(6)}"
        v = rng.choice([None, {"x": 1}, {"deep": {"er": [1, "two"]}}])
        self.cur += f" {nm} of {j}"
        if nm in [x for x, _ in m.hist]:
            return
        c.add_history(nm, copy.deepcopy(v))
        m.hist.append((nm, v or {}))

    def op_imap(self, j, rng):
        c, m = self.c[j], self.m[j]
        k = f"extra{rng.randrange(2)}"
        v = np.arange(rng.randrange(1, 4)) * 3
        f = rng.choice(["rev", "map"])
        self.cur += f" {f} {k} of {j}"
        if f == "rev":
            if k in m.rev:
                c.del_reverse_map(k)
                del m.rev[k]
            else:
                c.create_reverse_map(k, v)
                m.rev[k] = v.copy()
        elif k in m.axes:
            c.del_index_map(k)
            del m.axes[k], m.axattrs[k]
        else:
            c.create_index_map(k, v)
            m.axes[k], m.axattrs[k] = v.copy(), {}

    def op_file(self, j, rng):
        c, m = self.c[j], self.m[j]
        if any(len(v) == 0 for v in m.axes.values()) or any(len(v) == 0 for v in m.rev.values()):
            return
        fmt = rng.choice(["h5", "h5", "zarr"])
        self.nfile += 1
        path = os.path.join(self.dir, f"f{self.color}_{self.nfile}.{fmt}")
        ff = self.P.ff.HDF5 if fmt == "h5" else self.P.ff.Zarr
        sel, code = {}, {}
        for x in self.axes_of(m.cls):
            L = len(m.axes[x])
            if rng.random() < 0.3:
                if fmt == "h5" and rng.random() < 0.4:
                    code[x] = sorted(rng.sample(range(L), rng.randrange(1, L + 1)))
                else:
                    code[x] = slice(rng.choice([None, 0, L // 2]), rng.choice([None, L]), rng.choice([None, 1, 2]))
                sel[x + "_sel"] = copy.copy(code[x])
        if fmt == "h5" and sum(isinstance(v, list) for v in code.values()) > 1:
            return
        self.cur += f" {fmt} of {j} {code}"
        if not m.dist:
            # a common container is saved by one process
            if self.rank == 0:
                c.save(path, file_format=ff)
            self.comm.Barrier()
            d = self.classes[m.cls].from_file(path, **sel)
            self.comm.Barrier()
        else:
            c.save(path, file_format=ff)
            self.comm.Barrier()
            d = self.classes[m.cls].from_file(path, distributed=True, comm=self.comm, **sel)
        new = m.clone()
        for x, v in code.items():
            new.axes[x] = new.axes[x][v]
            for md in new.d.values():
                for i, y in enumerate(md.axes):
                    if y == x:
                        md.g = np.ascontiguousarray(md.g[(slice(None),) * i + (v,)])
        self.c.append(d)
        self.m.append(new)

    def op_check(self, j, rng):
        pass

    # -- the comparison --------------------------------------------------------------
    def check(self, j):
        c, m = self.c[j], self.m[j]
        what = f"after {self.cur}, container {j} (rank {self.rank}/{self.size})"
        if type(c) is not self.classes[m.cls]:
            raise Violation("wrong-type", f"{what} is a {type(c).__name__}")
        if bool(c.distributed) != m.dist or (m.dist and c.comm != self.comm):
            raise Violation("wrong-comm", f"{what}: distributed {c.distributed} or another communicator")
        if set(c.axes) != set(self.axes_of(m.cls)):
            raise Violation("axes", f"{what}: axes {c.axes}, expected {self.axes_of(m.cls)}")
        im = dict(c.index_map)
        if set(im) != set(m.axes):
            raise Violation("axes", f"{what}: index maps {sorted(im)}, expected {sorted(m.axes)}")
        for x, v in m.axes.items():
            if not R.same(im[x], v):
                raise Violation("axes", f"{what}: index map {x} is {im[x]}, expected {v}")
            a = {k: c04.norm(y) for k, y in c.index_attrs[x].items() if not k.startswith("__memh5")}
            if a != m.axattrs[x]:
                raise Violation("attrs", f"{what}: attributes of axis {x} are {a}, expected {m.axattrs[x]}")
        rev = dict(c.reverse_map)
        if set(rev) != set(m.rev) or any(not R.same(rev[k], v) for k, v in m.rev.items()):
            raise Violation("axes", f"{what}: reverse maps {rev}, expected {m.rev}")
        if sorted(c.datasets) != sorted(m.d) or sorted(c.keys()) != sorted(m.d):
            raise Violation("datasets", f"{what}: datasets {sorted(c.datasets)}, expected {sorted(m.d)}")
        for nm, md in m.d.items():
            ds = c[nm]
            w = f"{what} dataset {nm}"
            if md.dist is None:
                if getattr(ds, "distributed", False):
                    raise Violation("wrong-type", f"{w} is distributed")
                R.check_array(np.asarray(ds[:]), md.g, w, self.rank)
            else:
                if tuple(ds.global_shape) != md.g.shape or ds.distributed_axis != md.dist:
                    raise Violation("metadata", f"{w}: shape {ds.global_shape} over axis {ds.distributed_axis}, expected {md.g.shape} over {md.dist}")
                R.check_dist(ds[:], md.g, md.dist, self.size, self.rank, w, comm=self.comm)
            if [str(x) for x in ds.attrs["axis"]] != [str(x) for x in md.axes]:
                raise Violation("attrs", f"{w}: axes {ds.attrs['axis']}, expected {md.axes}")
            a = {k: c04.norm(y) for k, y in ds.attrs.items() if k != "axis" and not k.startswith("__memh5")}
            if a != md.attrs:
                raise Violation("attrs", f"{w}: attributes {a}, expected {md.attrs}")
        a = {k: c04.norm(y) for k, y in c.attrs.items() if not k.startswith("__memh5")}
        if a != m.attrs:
            raise Violation("attrs", f"{what}: attributes {a}, expected {m.attrs}")
        h = c.history
        if list(h["order"]) != [x for x, _ in m.hist] or any(h[k] != v for k, v in m.hist):
            raise Violation("history", f"{what}: history {dict(h)}, expected {m.hist}")


PROP = P()
