"""C05: histories of operations on in-memory trees against a plain tree of whole arrays."""

import copy
import os
import warnings

import numpy as np

from .. import harness, models
from ..sched import Violation
from .c04 import attr_value, dt_of, make, norm

R = models
DT = ["f8", "f4", "i4", "i8", "c16", "u1", "?", "S5", "U3", "rec", "recs", "i2", "M8[s]"]
GROUPS = ["", "g", "g/sub", "h"]
ATTRS = [3, 2.5, "hello", ["a", "b"], {"a": [1, {"b": 2}]}, ["@", "f8", [1.0, 2.0]], [1, 2], {"k": {}}]


class MD:
    """A model dataset: the whole array, the axis it is distributed over (None: common), attributes."""

    def __init__(self, g, axis, attrs=None, chunks=None):
        self.g = g
        self.axis = axis
        self.attrs = attrs if attrs is not None else {}
        self.chunks = chunks

    def clone(self):
        return MD(self.g.copy(), self.axis, copy.deepcopy(self.attrs), self.chunks)


class MT:
    """A model tree."""

    def __init__(self):
        self.d = {}
        self.groups = {"": {}}

    def clone(self, shared=()):
        t = MT()
        t.groups = {k: copy.deepcopy(v) for k, v in self.groups.items()}
        t.d = {k: (v if shared is True or k in shared else v.clone()) for k, v in self.d.items()}
        return t

    def add_parents(self, name):
        parts = name.split("/")
        for q in range(1, len(parts)):
            self.groups.setdefault("/".join(parts[:q]), {})


class P(harness.Prop):
    id = "C05"
    title = "In-memory data trees behave as one tree on all processes"
    rule = (
        "a run = up to 14 operations (create, delete, write, attributes, common/distributed conversion, redistribution, deep, "
        "shallow, shared and selecting copies of trees, copies of datasets) on up to 4 trees held by 1..6 simulated ranks; after "
        "every operation every tree on every rank is compared with a model made of whole numpy arrays"
    )
    real = ("caput.memdata", "caput.mpiarray", "caput.util.mpitools")
    stub = ("mpi4py (simulated network)", "clock", "per-rank set iteration order")
    quick_runs = 10000
    thorough_runs = 500000
    assumptions = ("every rank performs the same operations on the tree", "a selection leaves the distributed axis whole")

    def load(self):
        import caput.memdata as md
        from caput import mpiarray
        from caput.memdata import _memh5
        from caput.util import mpitools

        self.md = md
        self.m5 = _memh5
        self.ma = mpiarray
        self.tools = mpitools
        warnings.simplefilter("ignore")

    # -- programs ---------------------------------------------------------------
    def gen_dset(self, rng, n):
        shape = R.gen_shape(rng, n, nmax=3, zero_p=0.04)
        while np.prod(shape) > 300:
            j = max(range(len(shape)), key=lambda q: shape[q])
            shape[j] = max(1, shape[j] // 2)
        return {"shape": shape, "dtype": rng.choice(DT), "axis": rng.choice([None] + list(range(len(shape)))), "order": rng.choice("CCF")}

    def generate(self, rng, i):
        n = rng.choice([1, 2, 2, 3, 4, 5, 6])
        ops = []
        ndim = {}
        for k in range(rng.randrange(3, 15)):
            kind = rng.choice(["new", "new", "c2d", "c2d", "d2c", "redist", "redist", "write", "write", "attr", "gattr", "group", "del",
                               "copy", "copy", "dcopy", "dcopy", "aliasattr"])
            if k < 2:
                kind = "new"
            op = [kind, rng.randrange(4)]
            if kind == "new":
                d = self.gen_dset(rng, n)
                how = rng.choice(["data", "data", "data", "axis", "shape", "dtype"])
                op += [rng.choice(GROUPS), rng.randrange(5), d, how, rng.randrange(1000), rng.randrange(4)]
            elif kind in ("c2d", "redist"):
                op += [rng.randrange(8), rng.randrange(3)]
            elif kind in ("d2c", "del"):
                op += [rng.randrange(8)]
            elif kind == "write":
                op += [rng.randrange(8), rng.randrange(1000), rng.choice(["all", "slice", "fill"]), rng.randrange(3)]
            elif kind in ("attr", "gattr", "aliasattr"):
                op += [rng.randrange(8), rng.randrange(3), rng.randrange(len(ATTRS))]
            elif kind == "group":
                op += [rng.choice(GROUPS[1:]), rng.randrange(2)]
            elif kind == "copy":
                op += [rng.choice(["deep", "deep", "shallow", "shared", "deepcopy", "from_group", "dgc", "select", "convert", "sub", "sub"]), rng.randrange(64), rng.randrange(1000)]
            elif kind == "dcopy":
                op += [rng.randrange(8), rng.choice(["copy", "deepcopy", "view"]), rng.choice(["write", "redist", "attr", "rwrite"]), rng.randrange(3)]
            ops.append(op)
        return {"n": n, "cls": rng.choice(["group", "disk"]), "comm": "split" if n > 1 and rng.random() < 0.15 else "world",
                "distributed": rng.random() < 0.92, "ops": ops, "env": harness.gen_env(rng)}

    # -- execution -----------------------------------------------------------------
    def execute(self, program, ctx):
        n = program["n"]
        MPI = self.tools.MPI

        def rank_main(wr):
            world = MPI.COMM_WORLD
            comm = world.Split(wr % 2, wr) if program["comm"] == "split" else world
            Runner(self, program, comm, wr).run()

        run = ctx.simulate(n, rank_main, program["env"], max_steps=60000)
        ctx.require_clean(run)
        harness.require_no_leftovers(run)

    def describe(self, program):
        return {k: v for k, v in program.items() if k != "env"}

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("comm", "world"), ("cls", "group")):
            if program[k] != v:
                yield dict(program, **{k: v})


class Runner:
    def __init__(self, P, program, comm, wr):
        self.P = P
        self.prog = program
        self.comm = comm
        self.rank, self.size = comm.rank, comm.size
        self.wr = wr
        dist = program["distributed"]
        t = self.new_tree(dist, program["cls"])
        self.trees = [(t, MT(), dist, program["cls"])]
        self.extra = []  # detached dataset copies: (real, model)

    def new_tree(self, dist, cls):
        md = self.P.md
        cls = md.MemGroup if cls == "group" else md.MemDiskGroup
        return cls(distributed=dist, comm=self.comm) if dist else cls()

    def mpi(self, g, axis, order="C"):
        loc = R.local_part(g, axis, self.size, self.rank)
        loc = np.asfortranarray(loc) if order == "F" else np.ascontiguousarray(loc)
        return self.P.ma.MPIArray.wrap(loc.copy(order="K"), axis, comm=self.comm)

    def run(self):
        for k, op in enumerate(self.prog["ops"]):
            t = self.trees[op[1] % len(self.trees)]
            self.cur = f"op {k} {op}"
            self.way = (5 * k + op[1] + len(op)) % 4
            getattr(self, "do_" + op[0])(t, *op[2:])
            for j, tt in enumerate(self.trees):
                self.check(tt, f"after {self.cur}, tree {j}")
            for j, (ds, m) in enumerate(self.extra):
                self.check_ds(ds, m, f"after {self.cur}, dataset copy {j}")

    def via(self, tree, name):
        """The same entry addressed from the root, by its absolute path, or from a group above it."""
        if self.way == 0 or "/" not in name:
            return tree, ("/" + name if self.way == 1 else name)
        if self.way == 1:
            return tree, "/" + name
        parts = name.split("/")
        j = 1 if self.way == 2 else len(parts) - 1
        try:
            return tree["/".join(parts[:j])], "/".join(parts[j:])
        except KeyError:
            return tree, name

    def pick(self, t, k):
        names = sorted(t[1].d)
        return names[k % len(names)] if names else None

    # -- operations ---------------------------------------------------------------
    def do_new(self, t, grp, k, d, how, salt, nattr):
        tree, mt, dist, _ = t
        name = (grp + "/" if grp else "") + f"d{k}"
        if name in mt.d:
            return
        axis = d["axis"] if dist else None
        g = make(tuple(d["shape"]), d["dtype"], salt)
        attrs = {f"x{q}": attr_value(ATTRS[(salt + q) % len(ATTRS)]) for q in range(nattr)}
        h, nm = self.via(tree, name)
        kw = {}
        if salt % 3 == 0 and all(d["shape"]):
            kw["chunks"] = tuple(max(1, s // 2) for s in d["shape"])
        if axis is None:
            if how == "shape":
                h.create_dataset(nm, shape=g.shape, dtype=g.dtype, **kw)
                g = np.zeros_like(g)
            elif how == "dtype" and d["dtype"] in ("i4", "i2", "u1"):
                h.create_dataset(nm, data=g.copy(), dtype=np.float64, **kw)
                g = g.astype("f8")
            else:
                h.create_dataset(nm, data=np.array(g, order=d["order"]), **kw)
        elif how == "axis":
            a2 = (axis + 1) % g.ndim
            h.create_dataset(nm, data=self.mpi(g, axis, d["order"]), distributed=True, distributed_axis=a2, **kw)
            axis = a2
        elif how == "shape":
            ds = h.create_dataset(nm, shape=g.shape, dtype=g.dtype, distributed=True, distributed_axis=axis, **kw)
            ds[:] = R.local_part(g, axis, self.size, self.rank)
        elif how == "dtype" and d["dtype"] in ("i4", "i2", "u1"):
            h.create_dataset(nm, data=self.mpi(g, axis, d["order"]), dtype=np.float64, distributed=True, distributed_axis=axis, **kw)
            g = g.astype("f8")
        else:
            h.create_dataset(nm, data=self.mpi(g, axis, d["order"]), distributed=salt % 2 == 0, **kw)
        mt.add_parents(name)
        mt.d[name] = MD(np.array(g), axis, copy.deepcopy(attrs), kw.get("chunks"))
        for a, v in attrs.items():
            tree[name].attrs[a] = copy.deepcopy(v)

    def do_group(self, t, name, req):
        tree, mt = t[:2]
        if name in mt.groups:
            if req:
                tree.require_group(name)
            return
        (tree.require_group if req else tree.create_group)(name)
        mt.add_parents(name)
        mt.groups.setdefault(name, {})

    def do_del(self, t, k):
        tree, mt = t[:2]
        name = self.pick(t, k)
        if name is None or t[3] == "disk":
            return
        h, nm = self.via(tree, name)
        del h[nm]
        del mt.d[name]

    def do_c2d(self, t, k, ax):
        tree, mt, dist, _ = t
        name = self.pick(t, k)
        if name is None or not dist:
            return
        m = mt.d[name]
        ax = ax % m.g.ndim
        h, nm = self.via(tree, name)
        ds = h.dataset_common_to_distributed(nm, distributed_axis=ax)
        if m.axis is None:
            mt.d[name] = m2 = m.clone()
            m2.axis = ax
        else:
            m.axis = ax
            m2 = m
        self.check_ds(ds, m2, f"{self.cur} result")

    def do_d2c(self, t, k):
        tree, mt, dist, _ = t
        name = self.pick(t, k)
        if name is None or not dist:
            return
        m = mt.d[name]
        h, nm = self.via(tree, name)
        ds = h.dataset_distributed_to_common(nm)
        if m.axis is not None:
            m = mt.d[name] = m.clone()
            m.axis = None
        self.check_ds(ds, m, f"{self.cur} result")

    def do_redist(self, t, k, ax):
        tree, mt = t[:2]
        name = self.pick(t, k)
        if name is None or mt.d[name].axis is None:
            return
        m = mt.d[name]
        h, nm = self.via(tree, name)
        ds = h[nm]
        ds.redistribute(ax % m.g.ndim)
        m.axis = ax % m.g.ndim
        self.check_ds(ds, m, f"{self.cur} handle")

    def write(self, ds, m, salt, how):
        g = make(m.g.shape, "f8", salt).astype("i8") % 100
        new = m.g.copy()
        if m.g.dtype.kind in "SUVM":
            src = np.roll(m.g.ravel(), 1).reshape(m.g.shape)
        else:
            src = g.astype(m.g.dtype)
        if how == "fill" and m.g.size:
            v = src.ravel()[0]
            ds[:] = v
            new[...] = v
        elif how == "slice" and m.g.size and m.g.dtype.kind != "V":
            v = src.ravel()[-1]
            sl = tuple(slice(salt % 2, None, 2) for _ in m.g.shape)
            ds[sl] = v
            new[sl] = v
        else:
            ds[:] = src if m.axis is None else R.local_part(src, m.axis, self.size, self.rank)
            new[...] = src
        m.g[...] = new

    def do_write(self, t, k, salt, how, view):
        tree, mt = t[:2]
        name = self.pick(t, k)
        if name is None:
            return
        h, nm = self.via(tree, name)
        ds = h[nm]
        if view == 1:
            ds = ds.view()
        elif view == 2:
            ds = tree["/"][name] if "/" in name else ds
        self.write(ds, mt.d[name], salt, how)

    def do_attr(self, t, k, a, v):
        tree, mt = t[:2]
        name = self.pick(t, k)
        if name is None:
            return
        h, nm = self.via(tree, name)
        h[nm].attrs[f"x{a}"] = copy.deepcopy(attr_value(ATTRS[v]))
        mt.d[name].attrs[f"x{a}"] = copy.deepcopy(attr_value(ATTRS[v]))

    def do_gattr(self, t, k, a, v):
        tree, mt = t[:2]
        names = sorted(mt.groups)
        name = names[k % len(names)]
        o = tree[name] if name else tree
        o.attrs[f"y{a}"] = copy.deepcopy(attr_value(ATTRS[v]))
        mt.groups[name][f"y{a}"] = copy.deepcopy(attr_value(ATTRS[v]))

    def do_aliasattr(self, t, k, a, v):
        """Change an attribute's value in place: visible only where storage is shared."""
        tree, mt = t[:2]
        name = self.pick(t, k)
        if name is None:
            return
        at, mo = tree[name].attrs, mt.d[name].attrs
        for key in sorted(mo):
            if isinstance(mo[key], dict):
                at[key]["new"] = v
                mo[key]["new"] = v
            elif isinstance(mo[key], list):
                at[key].append(v)
                mo[key].append(v)
            elif isinstance(mo[key], np.ndarray):
                at[key][...] = v
                mo[key][...] = v

    def do_copy(self, t, how, bits, salt):
        tree, mt, dist, cls = t
        if len(self.trees) >= 4:
            return
        names = sorted(mt.d)
        shared = [nm for q, nm in enumerate(names) if bits >> q & 1]
        dgc = self.P.m5.deep_group_copy
        src = tree if cls == "group" else tree._data
        if how == "sub":
            return self.do_sub(mt, src, dist, bits, salt)
        if cls == "group" and how in ("deep", "deepcopy", "shallow", "shared"):
            new = self.new_tree(dist, cls)
            kw = {"shallow": {"shallow": True}, "shared": {"shared": [("/" if q % 2 else "") + nm for q, nm in enumerate(shared)]}}.get(how, {})
            dgc(tree, new, **kw)
        elif how == "deep":
            new = tree.copy()
        elif how == "deepcopy":
            new = copy.deepcopy(tree)
        elif how == "shallow":
            new = tree.copy(shallow=True)
        elif how == "shared":
            new = tree.copy(shared=[("/" if q % 2 else "") + nm for q, nm in enumerate(shared)])
        elif how == "from_group":
            new = self.P.md.MemGroup.from_group(src)
            m2 = mt.clone()
            self.trees.append((new, m2, dist, "group"))
            return
        else:
            new = self.P.md.MemGroup(distributed=dist, comm=self.comm) if dist else self.P.md.MemGroup()
            m2 = mt.clone()
            sel = {}
            if how == "select":
                for q, nm in enumerate(names):
                    m = m2.d[nm]
                    if not bits >> q & 1:
                        continue
                    sl = []
                    for ax, L in enumerate(m.g.shape):
                        if ax == m.axis:
                            sl.append(slice(None))
                        else:
                            sl.append(slice((salt + ax) % 3, None if salt % 2 else max(L - 1, 0), 1 + (salt // 7 + ax) % 2))
                    if m.axis is None and salt % 5 == 0 and m.g.ndim > 1 and m.g.shape[1]:
                        sl = sl[:1] + [[0, m.g.shape[1] - 1]]
                    sel[("/" if q % 2 else "") + nm] = tuple(sl)
                    m.g = m.g[tuple(sl)].copy()
                    m.chunks = None
            kw = {}
            if how == "convert":
                kw["convert_dataset_strings"] = True
                for m in m2.d.values():
                    if m.g.dtype.kind == "S":
                        m.g = m.g.astype(f"U{m.g.dtype.itemsize}")
                    elif m.g.dtype.names and "s" in m.g.dtype.names:
                        m.g = m.g.astype([("a", "f8"), ("s", "U4")])
            dgc(src, new, selections=sel or None, **kw)
            self.trees.append((new, m2, dist, "group"))
            return
        m2 = mt.clone(True if how == "shallow" else shared if how == "shared" else ())
        self.trees.append((new, m2, dist, cls))

    def do_sub(self, mt, src, dist, bits, salt):
        """Copies part of a tree, or into part of another tree."""
        groups = sorted(mt.groups)
        g = groups[salt % len(groups)]
        dst = ["", "dst", "g/sub"][salt // 5 % 3]
        mode = ["deep", "shallow", "shared", "select", "from_group"][salt // 16 % 5]
        inside = lambda k: k == g or g == "" or k.startswith(g + "/")
        rel = lambda k: k[len(g) + 1 if g else 0 :] if k != g else ""
        put = lambda k: "/".join(q for q in (dst if mode != "from_group" else "", rel(k)) if q)
        m2 = MT()
        names = [k for k in sorted(mt.d) if inside(k)]
        shared = [k for q, k in enumerate(names) if mode == "shallow" or (mode == "shared" and bits >> q & 1)]
        s2 = src[g] if g else src
        sel = {}
        for k in mt.groups:
            if inside(k):
                m2.groups[put(k)] = copy.deepcopy(mt.groups[k])
        for q, k in enumerate(names):
            m = mt.d[k] if k in shared else mt.d[k].clone()
            if mode == "select" and bits >> q & 1 and m.axis is None:
                sel[("/" if q % 2 else "") + rel(k)] = slice(0, 1)
                m.g = m.g[:1].copy()
                m.chunks = None
            m2.d[put(k)] = m
        if mode == "from_group":
            new = self.P.md.MemGroup.from_group(s2)
        else:
            new = self.P.md.MemGroup(distributed=dist, comm=self.comm) if dist else self.P.md.MemGroup()
            if dst:
                new.create_group(dst)
                m2.add_parents(dst)
            kw = {"shallow": {"shallow": True}, "shared": {"shared": [("/" if q % 2 else "") + rel(k) for q, k in enumerate(shared)]}, "select": {"selections": sel}}.get(mode, {})
            self.P.m5.deep_group_copy(s2, new[dst] if dst else new, **kw)
        m2.groups.setdefault("", {})
        self.trees.append((new, m2, dist, "group"))

    def do_dcopy(self, t, k, how, act, a):
        tree, mt = t[:2]
        name = self.pick(t, k)
        if name is None:
            return
        m = mt.d[name]
        ds = tree[name]
        if how == "view":
            c, m2 = ds.view(), m
        else:
            c, m2 = (ds.copy() if how == "copy" else copy.deepcopy(ds)), m.clone()
        if act in ("redist", "rwrite") and m.axis is not None:
            c.redistribute(a % m.g.ndim)
            m2.axis = a % m.g.ndim
        if act in ("write", "rwrite"):
            self.write(c, m2, 17 + a, "all")
        if act == "attr":
            c.attrs["copied"] = a
            m2.attrs["copied"] = a
        self.check_ds(c, m2, f"{self.cur} copy")
        if how != "view" and len(self.extra) < 3:
            self.extra.append((c, m2))

    # -- oracle ----------------------------------------------------------------------
    def check_ds(self, ds, m, what):
        if bool(ds.distributed) != (m.axis is not None) or bool(ds.common) == bool(ds.distributed):
            raise Violation("wrong-type", f"{what}: rank {self.wr} distributed={ds.distributed}, expected {m.axis is not None}")
        if tuple(ds.shape) != m.g.shape or ds.dtype != m.g.dtype:
            raise Violation("metadata", f"{what}: rank {self.wr} is {ds.shape} {ds.dtype}, expected {m.g.shape} {m.g.dtype}")
        if m.axis is not None:
            if ds.distributed_axis != m.axis:
                raise Violation("metadata", f"{what}: rank {self.wr} distributed over axis {ds.distributed_axis}, expected {m.axis}")
            R.check_dist(ds.data, m.g, m.axis, self.size, self.rank, what, self.comm)
        else:
            R.check_array(np.asarray(ds.data), m.g, what, self.wr)
        got, want = norm(dict(ds.attrs)), norm(m.attrs)
        if got != want:
            raise Violation("wrong-attributes", f"{what}: rank {self.wr} attributes {got}, expected {want}")
        if m.chunks is not None and tuple(ds.chunks or ()) != m.chunks:
            raise Violation("metadata", f"{what}: rank {self.wr} chunks {ds.chunks}, expected {m.chunks}")

    def check(self, t, what):
        tree, mt = t[:2]
        names = []

        def walk(g, pre):
            for k in g:
                x = g[k]
                if hasattr(x, "create_group"):
                    names.append((pre + k, 1))
                    walk(x, pre + k + "/")
                else:
                    names.append((pre + k, 0))

        walk(tree, "")
        want = sorted([(k, 1) for k in mt.groups if k] + [(k, 0) for k in mt.d])
        if sorted(names) != want:
            raise Violation("wrong-tree", f"{what}: rank {self.wr} holds {sorted(names)}, expected {want}")
        for g, a in mt.groups.items():
            got = norm(dict((tree[g] if g else tree).attrs))
            if got != norm(a):
                raise Violation("wrong-attributes", f"{what}: rank {self.wr} group {g!r} attributes {got}, expected {norm(a)}")
        for nm, m in mt.d.items():
            self.check_ds(tree[nm], m, f"{what} dataset {nm}")


PROP = P()
