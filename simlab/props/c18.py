"""C18: datasets copied between containers with selections along axes, on 1..6 ranks."""

import numpy as np

from .. import harness, models
from ..sched import Violation
from . import c04

R = models
AX = ["ab", "b", "freq"]


def dec(s):
    kind, v = s
    if kind == "s":
        return slice(*v)
    return {"l": list, "t": tuple, "n": np.array}[kind](v) if v or kind != "n" else np.zeros(0, int)


def take(g, ax, s):
    v = dec(s)
    if isinstance(v, slice):
        return g[(slice(None),) * ax + (v,)]
    return np.take(g, np.asarray(v, dtype=int), axis=ax)


class P(harness.Prop):
    id = "C18"
    title = "Selecting along axes copies exactly the selected data"
    rule = (
        "a run = a random container definition (1..4 datasets over 1..3 axes, common or distributed over any axis), a source and a destination "
        "container on 1..6 ranks, then one or two copy_datasets_filter calls with slices, index lists, tuples or arrays on any axes, exclusions and "
        "copy_without_selection; every destination dataset compared with numpy on the whole, the source and the caller's selection before and after"
    )
    real = ("caput.containers", "caput.memdata", "caput.mpiarray")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 6000
    thorough_runs = 300000
    assumptions = ("the axes of the destination reflect the selection (documented)",)

    def load(self):
        from caput import containers
        from caput.util import mpitools

        self.ct = containers
        self.mt = mpitools

    def gen_sel(self, rng, L):
        k = rng.random()
        if k < 0.15:
            return ["s", [None, None, None]]
        if k < 0.55:
            def b():
                return rng.choice([None, None, 0, 1, 2, L - 1, L, L + 2, -1, -L, rng.randrange(0, L + 1)])
            return ["s", [b(), b(), rng.choice([None, None, 1, 2, 3, -1])]]
        kind = rng.choice(["l", "l", "t", "n"])
        f = rng.random()
        if f < 0.35:
            s = rng.randrange(0, L)
            v = list(range(s, rng.randrange(s, L) + 1))
        elif f < 0.6:
            v = sorted(rng.sample(range(L), rng.randrange(1, L + 1)))
        elif f < 0.9:
            v = [rng.randrange(-L, L) for _ in range(rng.randrange(1, L + 2))]
        else:
            v = [] if rng.random() < 0.4 else [rng.randrange(L)]
        return [kind, v]

    def generate(self, rng, i):
        n = R.gen_n(rng)
        lens = {x: max(1, R.gen_len(rng, n)) for x in AX}
        dsets = []
        for q in range(rng.randrange(1, 5)):
            axes = rng.sample(AX, rng.choice([1, 2, 2, 3, 3]))
            dsets.append({"name": f"d{q}", "axes": axes, "dtype": rng.choice(["f8", "f4", "i4", "c16", "?", "rec", "U3"]), "dist": rng.random() < 0.75,
                          "src_axis": rng.randrange(len(axes)), "dst_axis": rng.randrange(len(axes)), "spec_axis": rng.choice(axes),
                          "source": rng.random() < 0.9, "dest": rng.random() < 0.4,
                          "attrs": {f"k{z}": rng.choice(c04.ATTRS[:9]) for z in range(rng.randrange(3))}})
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            sel = {x: self.gen_sel(rng, lens[x]) for x in rng.sample(AX, rng.choice([0, 1, 1, 1, 2, 2]))}
            if ops and rng.random() < 0.5:
                sel = ops[0]["sel"]
            form = rng.choice(["dict", "dict", "both", "list"])
            if len(sel) == 1 and rng.random() < 0.5:
                form = rng.choice(["single", "single", "str"])
            elif sel and rng.random() < 0.06:
                form = "mismatch"
            elif len(sel) == 2 and rng.random() < 0.3:
                x, y = sel
                if lens[x] == lens[y]:
                    sel[y] = sel[x]
                    form = "all"
            ops.append({"sel": sel, "form": form, "exclude": rng.choice([None, None, None, [], [rng.choice(AX)], rng.sample(AX, 2)]),
                        "without": rng.random() < 0.4, "reuse": rng.random() < 0.5})
        sd = rng.random() < 0.85
        return {"n": n, "lens": lens, "dsets": dsets, "src_dist": sd, "dst_dist": sd if rng.random() < 0.9 else not sd,
                "comm": rng.choice(["world", "world", "split", "reverse"]), "env": harness.gen_env(rng), "ops": ops}

    def directed(self):
        env = dict(harness.QUIET)
        d = {"name": "d0", "axes": ["ab", "b"], "dtype": "f8", "dist": True, "src_axis": 0, "dst_axis": 0, "spec_axis": "ab", "source": True, "dest": False, "attrs": {"k": ["s", "x"]} if 0 else {}}
        base = {"n": 2, "lens": {"ab": 4, "b": 3, "freq": 2}, "dsets": [d], "src_dist": True, "dst_dist": True, "comm": "world", "env": env}
        out = []
        for sel in (["n", [0, 2]], ["s", [None, None, None]], ["l", []], ["l", [1, 2, 3]], ["s", [1, None, 2]]):
            op = {"sel": {"ab": sel}, "form": "dict", "exclude": None, "without": False, "reuse": True}
            out.append(dict(base, ops=[op, dict(op)]))
        out.append(dict(base, src_dist=False, ops=[{"sel": {"ab": ["s", [1, None, None]]}, "form": "dict", "exclude": None, "without": False, "reuse": False}]))
        return out

    def snapshot(self, c):
        return {k: (np.array(c[k][:]).copy(), getattr(c[k], "distributed_axis", None), sorted((a, c04.norm(v)) for a, v in c[k].attrs.items() if a != "axis"),
                    list(c[k].attrs["axis"])) for k in c.keys()}

    def execute(self, program, ctx):
        p = program
        n = p["n"]
        MPI = self.mt.MPI
        spec = {d["name"]: {"axes": list(d["axes"]), "dtype": R.dtype_of(d["dtype"]), "initialise": False, "distributed": d["dist"],
                            "distributed_axis": d["spec_axis"]} for d in p["dsets"]}
        cls = type("Sel", (self.ct.ContainerPrototype,), {"_axes": tuple(AX), "_dataset_spec": spec, "__module__": __name__})
        wholes = {d["name"]: R.make([p["lens"][x] for x in d["axes"]], d["dtype"], q) for q, d in enumerate(p["dsets"])}

        def rank_main(wr):
            comm = MPI.COMM_WORLD
            if p["comm"] == "split":
                comm = comm.Split(wr % 2, wr)
            elif p["comm"] == "reverse":
                comm = comm.Split(0, -wr)
            size, rank = comm.Get_size(), comm.Get_rank()
            maps = {x: 10 * np.arange(L) for x, L in p["lens"].items()}
            src = cls(distributed=p["src_dist"], comm=comm, **maps)
            for d in p["dsets"]:
                if not d["source"]:
                    continue
                ds = src.add_dataset(d["name"])
                g = wholes[d["name"]]
                if d["dist"] and p["src_dist"]:
                    ds.redistribute(d["src_axis"])
                    ds[:] = R.local_part(g, d["src_axis"], size, rank)
                else:
                    ds[:] = g
                for k, v in d["attrs"].items():
                    ds.attrs[k] = c04.attr_value(v)
            before = self.snapshot(src)
            kept = None
            for q, op in enumerate(p["ops"]):
                ex = {x: take(maps[x], 0, op["sel"][x]) if x in op["sel"] else maps[x] for x in AX}
                dst = cls(axes_from=src, distributed=p["dst_dist"], comm=comm, **{x: ex[x] for x in op["sel"]})
                for d in p["dsets"]:
                    if d["dest"]:
                        ds = dst.add_dataset(d["name"])
                        ds[:] = np.zeros((), ds.dtype)
                        if d["dist"] and p["dst_dist"]:
                            ds.redistribute(d["dst_axis"])
                self.one(p, q, op, src, dst, ex, wholes, size, rank, kept)
                after = self.snapshot(src)
                if set(after) != set(before):
                    raise Violation("source-changed", f"call {q}: the source has {sorted(after)}, before {sorted(before)}")
                for k, v in before.items():
                    w = after[k]
                    if not R.same(v[0], w[0]) or v[1:] != w[1:]:
                        raise Violation("source-changed", f"call {q} {op['sel']}: source dataset {k} on rank {rank}/{size} was distributed over {v[1]} with attributes {v[2:]}, now {w[1]} {w[2:]}")
                if dict(src.index_map).keys() != maps.keys() or any(not R.same(src.index_map[x], maps[x]) for x in maps):
                    raise Violation("source-changed", f"call {q}: index maps of the source changed")
            return True

        run = ctx.simulate(n, rank_main, p["env"])
        ctx.require_clean(run, "copy with selection:")
        harness.require_no_leftovers(run)

    def one(self, p, q, op, src, dst, ex, wholes, size, rank, kept):
        sel = {x: dec(s) for x, s in op["sel"].items()}
        same = {x: dec(s) for x, s in op["sel"].items()}
        kw = {"exclude_axes": op["exclude"], "copy_without_selection": op["without"]}
        form = op["form"]
        what = f"call {q} selection {op['sel']} form {form} exclude {op['exclude']} without {op['without']} rank {rank}/{size}"
        if form == "single":
            (x, s), = sel.items()
            args = (x, s)
        elif form == "str":
            args = (*sel, sel)
        elif form == "mismatch":
            args = (list(sel) + [x for x in AX if x not in sel][:1], sel)
            try:
                self.ct.copy_datasets_filter(src, dst, *args, **kw)
            except ValueError:
                return
            raise Violation("not-refused", f"{what}: no selection for one of the axes {args[0]}, and no error")
        elif form == "all":
            args = (list(sel), next(iter(sel.values())))
        elif form == "both":
            args = (tuple(sel), sel)
        elif form == "list":
            args = (list(sel), sel)
        else:
            args = ([], sel)
        # what the documentation promises
        refuse = False
        expect = []
        for d in p["dsets"]:
            if not d["source"] or set(op["exclude"] or []) & set(d["axes"]):
                continue
            if not op["without"] and not set(d["axes"]) & set(sel):
                continue
            ds, dd = d["dist"] and p["src_dist"], d["dist"] and p["dst_dist"]
            if ds and not dd:
                refuse = True
            if ds and d["axes"][d["src_axis"]] in sel and not set(d["axes"]) - set(sel):
                refuse = True
            expect.append(d)
        had = set(dst.keys())
        err = None
        try:
            self.ct.copy_datasets_filter(src, dst, *args, **kw)
        except ValueError as e:
            if not refuse:
                raise
            err = e
        if refuse and err is None and any(d["dist"] and not p["dst_dist"] for d in expect) and p["src_dist"]:
            raise Violation("not-refused", f"{what}: a distributed dataset was copied into a common one without an error")
        if set(sel) != set(same) or any(type(sel[x]) is not type(same[x]) or not (np.array_equal(sel[x], same[x]) if isinstance(sel[x], np.ndarray) else sel[x] == same[x]) for x in sel):
            raise Violation("selection-changed", f"{what}: the caller's selection became {sel}")
        for x in AX:
            if not R.same(dst.index_map[x], ex[x]):
                raise Violation("axes", f"{what}: axis {x} of the destination changed")
        if err is not None:
            return
        names = {d["name"] for d in expect}
        if set(dst.keys()) != had | names:
            raise Violation("wrong-datasets", f"{what}: destination has {sorted(dst.keys())}, expected {sorted(had | names)}")
        for d in p["dsets"]:
            name = d["name"]
            if name not in dst:
                continue
            ds = dst[name]
            g = wholes[name]
            for i, x in enumerate(d["axes"]):
                if x in op["sel"]:
                    g = take(g, i, op["sel"][x])
            if name not in names:
                if np.array(ds[:]).astype(bool).any() if ds.dtype.names is None else False:
                    raise Violation("wrong-datasets", f"{what}: dataset {name} was written")
                continue
            if d["dist"] and p["dst_dist"]:
                axis = ds.distributed_axis
                if p["src_dist"] and axis != d["src_axis"]:
                    raise Violation("wrong-axis", f"{what}: {name} is distributed over axis {axis}, the source over {d['src_axis']}")
                R.check_dist(ds[:], np.ascontiguousarray(g), axis, size, rank, f"{what} dataset {name}", comm=src.comm)
            else:
                R.check_array(np.asarray(ds[:]), np.ascontiguousarray(g), f"{what} dataset {name}", rank)
            if [str(x) for x in ds.attrs["axis"]] != d["axes"]:
                raise Violation("attrs", f"{what}: axes of {name} are {ds.attrs['axis']}")
            for k, v in d["attrs"].items():
                if k not in ds.attrs or c04.norm(ds.attrs[k]) != c04.norm(c04.attr_value(v)):
                    raise Violation("attrs", f"{what}: attribute {k} of {name} is {ds.attrs.get(k)!r}, expected {v!r}")


PROP = P()
