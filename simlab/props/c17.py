"""C17: time streams split over files or objects and joined again by 1..5 ranks."""

import os

import numpy as np

from .. import harness, models
from ..sched import Violation, current
from . import c04

R = models
NAXES = {"chan": None, "prod": None}


def dec(s):
    if s is None:
        return None
    return slice(*s[1]) if s[0] == "s" else list(s[1])


def take(a, axis, sel):
    if sel is None:
        return a
    sl = [slice(None)] * a.ndim
    sl[axis] = dec(sel)
    return a[tuple(sl)]


class P(harness.Prop):
    id = "C17"
    title = "Concatenating acquisitions gives the whole time stream"
    rule = (
        "a run = a time stream with random datasets and axes cut into 1..5 pieces (in memory, common or distributed, or in HDF5/zarr files "
        "written by 1..4 ranks), joined on 1..5 ranks by concatenate, from_mult_files or TODReader with start/stop, dataset, axis and filter "
        "choices; every dataset, index map and attribute compared with numpy on the whole stream, inputs compared before and after"
    )
    real = ("caput.containers.tod", "caput.containers", "caput.memdata", "caput.mpiarray", "h5py (serial)", "zarr")
    stub = ("mpi4py (simulated network)", "clock", "shared filesystem visibility and locks")
    quick_runs = 4000
    thorough_runs = 150000
    assumptions = ("the datasets of all pieces have the same names, types and axes (documented)", "datasets are not distributed over the joined axis")

    def load(self):
        from caput import containers
        from caput.containers import tod
        from caput.memdata import fileformats
        from caput.util import mpitools

        self.tod = tod
        self.ff = fileformats
        self.mt = mpitools

        class Two(tod.TOData):
            time_axes = ("time", "slow")

        Two.__module__ = __name__
        globals()["Two"] = Two

        class Proto(containers.ContainerPrototype, tod.TOData):
            _axes = ("chan", "prod", "time")
            _dataset_spec = {
                f"d{k}": {"axes": ax, "dtype": "f8", "initialise": False, "distributed": True, "distributed_axis": ax[0]}
                for k, ax in enumerate((["chan", "time"], ["prod", "chan", "time"], ["chan"], ["chan", "prod"]))
            }

        Proto.__module__ = __name__
        globals()["Proto"] = Proto
        self.classes = {"one": tod.TOData, "two": Two, "proto": Proto}

    def generate(self, rng, i):
        n = rng.choice([1, 1, 2, 2, 3, 4, 5])
        w = rng.choice([1, 2, 3, 4])
        k = rng.choice([1, 2, 2, 3, 3, 4, 5])
        cls = rng.choice(["one", "one", "one", "two", "proto"])
        src = rng.choice(["mem", "dist", "dist", "disk", "load", "load_dist"])
        fmt = rng.choice(["h5", "h5", "zarr"])
        lens = [rng.choice([0, 1, 1, 2, 3, 5, 9]) if rng.random() < 0.9 else 0 for _ in range(k)]
        slow = [rng.choice([0, 1, 2, 3]) for _ in range(k)]
        if fmt == "zarr" or src in ("disk", "load", "load_dist"):
            lens = [max(1, x) for x in lens]
            slow = [max(1, x) for x in slow]
        ax = {"chan": max(1, R.gen_len(rng, n)), "prod": rng.randrange(1, 5)}
        times = ["time"] if cls != "two" else ["time", "slow"]
        dsets = []
        if cls == "proto":
            for q in range(4):
                if rng.random() < 0.7:
                    axes = self.classes["proto"]._dataset_spec[f"d{q}"]["axes"] if hasattr(self, "classes") else None
                    dsets.append({"name": f"d{q}", "axes": axes, "dtype": "f8", "dist": axes[0] if src in ("dist", "load_dist") else None, "attrs": {}})
        else:
            for q in range(rng.randrange(1, 5)):
                t = rng.choice(times + [None]) if rng.random() < 0.6 else "time"
                other = rng.sample(["chan", "prod"], rng.randrange(0 if t else 1, 3))
                axes = list(other)
                if t:
                    axes.insert(rng.choice([len(axes), len(axes), rng.randrange(len(axes) + 1)]), t)
                dist = rng.choice(other) if other and src in ("dist", "load_dist") and rng.random() < 0.7 else None
                dsets.append({"name": f"d{q}", "axes": axes, "dtype": rng.choice(["f8", "f4", "i4", "c16", "u1", "?", "rec", "i8"]), "dist": dist,
                              "attrs": {f"a{z}": rng.choice(c04.ATTRS[:9]) for z in range(rng.randrange(3))}})
        nt, ns = sum(lens), sum(slow)

        def bound(L):
            return rng.choice([None, None, 0, 1, L // 2, L - 1, L, L + 3, -1, -2, -L, -L - 2, rng.randrange(0, L + 1)])

        if cls == "two" and rng.random() < 0.5:
            start = {t: bound(L) for t, L in (("time", nt), ("slow", ns)) if rng.random() < 0.7}
            stop = {t: bound(L) for t, L in (("time", nt), ("slow", ns)) if rng.random() < 0.7}
        else:
            start, stop = bound(nt), bound(nt)
        how = "concat" if src in ("mem", "dist") else rng.choice(["files", "files", "reader"] if src == "disk" else ["files"])
        want = None
        if rng.random() < 0.3:
            want = [d["name"] for d in dsets if rng.random() < 0.6]
        sel = None
        if cls == "proto" and src in ("load", "load_dist") and rng.random() < 0.7:
            L = ax["chan"]
            if fmt == "h5" and rng.random() < 0.4:
                sel = ["l", sorted(rng.sample(range(L), rng.randrange(1, L + 1)))]
            else:
                s = ["s", [rng.choice([None, 0, 1]), rng.choice([None, L, L - 1]), rng.choice([None, 1, 2])]]
                sel = s if len(range(L)[slice(*s[1])]) else None
        return {
            "n": n, "w": w, "cls": cls, "src": src, "fmt": fmt, "lens": lens, "slow": slow, "ax": ax, "dsets": dsets, "start": start, "stop": stop,
            "want": want, "how": how, "filter": rng.choice([None, None, None, "one", "two", "raw"]), "sel": sel,
            "out": rng.choice([None, None, None, "h5", "mem"]) if src in ("mem", "disk", "load") else None,
            "tdtype": rng.choice(["f8", "f8", "rec"]), "align": rng.choice([None, None, 1, -1]), "glob": rng.random() < 0.3,
            "seq": rng.choice(["list", "list", "tuple"]), "attrs": {f"r{z}": rng.choice(c04.ATTRS[:9]) for z in range(rng.randrange(3))},
            "comm": "split" if src in ("dist", "load_dist") and rng.random() < 0.3 else "world", "hist": rng.random() < 0.3, "trange": rng.random() < 0.3, "env": harness.gen_env(rng), "ops": list(range(k)),
        }

    def directed(self):
        env = dict(harness.QUIET)
        base = {"n": 2, "w": 2, "cls": "one", "src": "dist", "fmt": "h5", "lens": [2, 3], "slow": [1, 1], "ax": {"chan": 3, "prod": 2}, "start": 1, "stop": 4,
                "dsets": [{"name": "d0", "axes": ["chan", "time"], "dtype": "f8", "dist": "chan", "attrs": {}}, {"name": "d1", "axes": ["chan"], "dtype": "f8", "dist": "chan", "attrs": {}}],
                "want": None, "how": "concat", "filter": None, "sel": None, "out": None, "tdtype": "f8", "align": None, "glob": False, "seq": "list", "attrs": {},
                "hist": True, "trange": False, "env": env, "ops": [0, 1]}
        nod = [dict(d, dist=None) for d in base["dsets"]]
        return [base, dict(base, src="disk", how="files", dsets=nod, out="h5"), dict(base, src="mem", dsets=nod, start=-9, stop=None),
                dict(base, src="mem", dsets=nod, seq="tuple"), dict(base, src="mem", dsets=nod, start=7, stop=None)]

    # -- the whole stream ----------------------------------------------------------
    def whole(self, p, d, salt):
        L = {"time": sum(p["lens"]), "slow": sum(p["slow"]), **p["ax"]}
        return R.make([L[a] for a in d["axes"]], d["dtype"], salt)

    def timemap(self, p, name):
        L = sum(p["lens"] if name == "time" else p["slow"])
        if p["tdtype"] == "rec" and name == "time":
            a = np.zeros(L, np.dtype([("fpga", "u8"), ("ctime", "f8")]))
            a["fpga"] = np.arange(L) * 3
            a["ctime"] = 100.0 + 2.5 * np.arange(L)
            return a
        return 100.0 + 2.5 * np.arange(L)

    def piece(self, p, d, g, q):
        for t in ("time", "slow"):
            if t in d["axes"]:
                lens = p["lens"] if t == "time" else p["slow"]
                s = sum(lens[:q])
                sl = [slice(None)] * g.ndim
                sl[d["axes"].index(t)] = slice(s, s + lens[q])
                return g[tuple(sl)]
        return g

    def build(self, p, q, wholes, size, rank, dist, comm=None):
        cls = self.classes[p["cls"]]
        kw = {"distributed": dist} if dist or p["cls"] == "proto" else {}
        if dist and comm is not None:
            kw["comm"] = comm
        times = ["time"] + (["slow"] if p["cls"] == "two" else [])
        maps = {a: 10 * np.arange(L) for a, L in p["ax"].items()}
        for t in times:
            lens = p["lens"] if t == "time" else p["slow"]
            s = sum(lens[:q])
            maps[t] = self.timemap(p, t)[s:s + lens[q]].copy()
        if p["cls"] == "proto":
            c = cls(skip_datasets=True, **maps, **kw)
        else:
            c = cls(**kw)
            for a, m in maps.items():
                c.create_index_map(a, m)
        c.create_reverse_map("prod", np.arange(p["ax"]["prod"])[::-1].copy())
        if p["align"] is not None:
            c.index_attrs["time"]["alignment"] = p["align"]
        for k, v in p["attrs"].items():
            c.attrs[k] = c04.attr_value(v) if q == 0 else "other"
        if p["hist"]:
            c.add_history(f"step{q}", {"x": q})
        for d, g in zip(p["dsets"], wholes):
            part = self.piece(p, d, g, q)
            if not any(t in d["axes"] for t in times) and q > 0 and p["cls"] != "proto":
                part = np.zeros_like(part)  # only the first input's counts
            if d["dist"]:
                ax = d["axes"].index(d["dist"])
                if p["cls"] == "proto":
                    ds = c.add_dataset(d["name"])
                else:
                    ds = c.create_dataset(d["name"], shape=part.shape, dtype=part.dtype, distributed=True, distributed_axis=ax)
                ds[:] = R.local_part(part, ax, size, rank)
            elif p["cls"] == "proto":
                ds = c.add_dataset(d["name"])
                ds[:] = part
            else:
                ds = c.create_dataset(d["name"], data=part.copy())
            ds.attrs["axis"] = np.array(d["axes"])
            for k, v in d["attrs"].items():
                ds.attrs[k] = c04.attr_value(v)
        return c

    def snapshot(self, c):
        out = {}
        for k in sorted(c.index_map):
            out["im", k] = np.array(c.index_map[k]).copy()
        for k in c.keys():
            ds = c[k]
            out["d", k] = (np.array(ds[:]).copy(), getattr(ds, "distributed", False), getattr(ds, "distributed_axis", None), sorted(ds.attrs))
        out["attrs"] = sorted(c.attrs)
        out["hist"] = str(c.history["order"])
        return out

    def execute(self, program, ctx):
        p = program
        n, k = p["n"], len(p["ops"])
        lens = p["lens"] = p["lens"][:k]
        p["slow"] = p["slow"][:k]
        if len(lens) != k or not k:
            return
        wholes = [self.whole(p, d, q) for q, d in enumerate(p["dsets"])]
        MPI = self.mt.MPI
        times = ["time"] + (["slow"] if p["cls"] == "two" else [])
        d0 = ctx.dir()
        dist = p["src"] in ("dist", "load_dist")
        ext = ".h5" if p["fmt"] == "h5" else ".zarr"
        names = [os.path.join(d0, f"f{q:02d}{ext}") for q in range(k)]
        files = p["src"] in ("disk", "load", "load_dist")
        if files:
            wdist = any(d["dist"] for d in p["dsets"])

            def writer(wr):
                size = MPI.COMM_WORLD.Get_size()
                for q in range(k):
                    self.build(p, q, wholes, size, wr, wdist).save(names[q], file_format=self.ff.HDF5 if p["fmt"] == "h5" else self.ff.Zarr)
                return True

            run = ctx.simulate(p["w"] if wdist else 1, writer, p["env"])
            ctx.require_clean(run, "writing the pieces:")
        L = {"time": sum(lens), "slow": sum(p["slow"])}
        st, sp = p["start"], p["stop"]
        win = {}
        for t in times:
            a = st.get(t) if isinstance(st, dict) else st
            b = sp.get(t) if isinstance(sp, dict) else sp
            s, e, _ = slice(a, b).indices(L[t])
            win[t] = (s, max(s, e))
        filt = p["filter"] if p["how"] != "reader" else None

        def f_one(d):
            return d[:] * 2

        def f_raw(d):
            return d[:]

        def f_two(d, sl):
            ax = next(x["axes"] for x in p["dsets"] if x["name"] == d.name.strip("/"))
            i = next(j for j, x in enumerate(ax) if x in times)
            return d[(slice(None),) * i + (sl,)]

        ok2 = all(np.dtype(R.dtype_of(d["dtype"])).kind in "fciu" and d["dtype"] != "rec" for d in p["dsets"])
        func = {"one": f_one if ok2 else None, "two": f_two, "raw": f_raw}.get(filt)
        double = func is f_one
        keep = {"start": dict(st) if isinstance(st, dict) else st, "stop": dict(sp) if isinstance(sp, dict) else sp}
        what0 = f"{p['src']}/{p['how']} {p['cls']} pieces {lens}{p['slow'] if p['cls'] == 'two' else ''} start {st} stop {sp} want {p['want']} filter {filt} out {p['out']}"

        def rank_main(wr):
            comm = None
            size = n
            if p.get("comm") == "split":
                comm = MPI.COMM_WORLD.Split(wr % 2, -wr)
                size, wr = comm.Get_size(), comm.Get_rank()
            cls = self.classes[p["cls"]]
            what = what0 + f" rank {wr}/{size}"
            out = None
            if p["out"] == "h5":
                import h5py

                out = h5py.File(os.path.join(d0, f"out{current().rank}.h5"), "w")
            elif p["out"] == "mem":
                from caput.memdata import MemGroup

                out = MemGroup()
            start = dict(st) if isinstance(st, dict) else st
            stop = dict(sp) if isinstance(sp, dict) else sp
            kw = dict(out_group=out, start=start, stop=stop, datasets=p["want"], dataset_filter=func)
            a, b = start, stop
            w2 = dict(win)
            if not files:
                data = [self.build(p, q, wholes, size, wr, dist, comm) for q in range(k)]
                before = [self.snapshot(c) for c in data]
                res = self.tod.concatenate(data if p["seq"] == "list" else tuple(data), **kw)
                for q, c in enumerate(data):
                    x = self.snapshot(c)
                    for key, v in before[q].items():
                        y = x.get(key)
                        same = all(R.same(m, z) if isinstance(m, np.ndarray) else m == z for m, z in zip(v, y)) if isinstance(v, tuple) else (
                            R.same(v, y) if isinstance(v, np.ndarray) else v == y)
                        if not same:
                            raise Violation("input-changed", f"{what}: input {q} changed at {key}")
                    if set(x) != set(before[q]):
                        raise Violation("input-changed", f"{what}: input {q} has {sorted(map(str, x))}")
            elif p["how"] == "reader":
                rd_cls = type("Rd", (self.tod.TODReader,), {"data_class": cls})
                rd = rd_cls(os.path.join(d0, "f*" + ext) if p["glob"] else list(names))
                tm = self.timemap(p, "time")
                tm = tm["ctime"] if tm.dtype.names else tm
                if p["align"]:
                    step = abs(np.median(np.diff(tm))) / 2 if len(tm) > 1 else np.nan
                    tm = tm + p["align"] * step
                if not np.array_equal(rd.time, tm, equal_nan=True):
                    raise Violation("wrong-time", f"{what}: reader time {rd.time}, expected {tm}")
                exp = {d["name"] for d in p["dsets"] if any(t in d["axes"] for t in times)}
                if set(rd.datasets) != exp:
                    raise Violation("wrong-datasets", f"{what}: reader offers {rd.datasets}, expected {sorted(exp)}")
                s, e = win["time"]
                if p["trange"] and e > s and not np.isnan(tm).any():
                    lo, hi = tm[s] - 0.1, tm[e] if e % 2 and e < len(tm) else tm[e - 1] + 0.1
                    rd.select_time_range(lo if s % 2 else tm[s], hi)
                else:
                    rd.time_sel = (s, e)
                if "slow" in times:
                    w2["slow"] = tuple(slice(*rd.time_sel).indices(L["slow"])[:2])
                if p["want"] is not None:
                    rd.dataset_sel = [x for x in p["want"] if x in exp]
                res = rd.read(out_group=out)
            else:
                fl = os.path.join(d0, "f*" + ext) if p["glob"] else list(names)
                kw["data_group"] = kw.pop("out_group")
                if p["src"] != "disk":
                    kw["ondisk"] = False
                if p["src"] == "load_dist":
                    kw["distributed"] = True
                    if comm is not None:
                        kw["comm"] = comm
                if p["sel"] is not None:
                    kw["chan_sel"] = dec(p["sel"])
                res = cls.from_mult_files(fl, **kw)
            if (a, b) != (keep["start"], keep["stop"]):
                raise Violation("input-changed", f"{what}: the caller's start and stop became {a} {b}")
            self.check(p, res, wholes, w2, times, size, wr, what, double, out, comm)
            if p["out"] == "h5":
                out.close()
            return True

        run = ctx.simulate(n, rank_main, p["env"])
        ctx.require_clean(run, what0 + ":")
        harness.require_no_leftovers(run)
        ctx.probe(p["src"] + "_" + p["how"])

    def check(self, p, res, wholes, win, times, size, rank, what, double, out, comm):
        if comm is not None and res.comm != comm:
            raise Violation("wrong-comm", f"{what}: the result is not on the communicator of the inputs")
        if type(res) is not self.classes[p["cls"]]:
            raise Violation("wrong-type", f"{what}: got a {type(res).__name__}")
        maps = {a: 10 * np.arange(n) for a, n in p["ax"].items()}
        maps["chan"] = take(maps["chan"], 0, p["sel"])
        empty = {}
        for t in times:
            s, e = win[t]
            e = max(s, e)
            maps[t] = self.timemap(p, t)[s:e]
            empty[t] = s == e
        got = dict(res.index_map)
        if set(got) != set(maps):
            raise Violation("wrong-axes", f"{what}: axes {sorted(got)}, expected {sorted(maps)}")
        for a, m in maps.items():
            R.check_array(np.asarray(got[a]), m, f"{what} index map {a}", rank)
        if p["align"] is not None and res.index_attrs["time"].get("alignment") != p["align"]:
            raise Violation("attrs", f"{what}: the alignment attribute was lost")
        R.check_array(np.asarray(res.reverse_map["prod"]), np.arange(p["ax"]["prod"])[::-1], f"{what} reverse map", rank)
        for k, v in p["attrs"].items():
            if k not in res.attrs or c04.norm(res.attrs[k]) != c04.norm(c04.attr_value(v)):
                raise Violation("attrs", f"{what}: attribute {k} is {res.attrs.get(k)!r}, expected {v!r}")
        must = set()
        for d, g in zip(p["dsets"], wholes):
            t = next((x for x in d["axes"] if x in times), None)
            name = d["name"]
            if t is None:
                must.add(name)
            elif p["want"] is None or name in p["want"]:
                if empty[t]:
                    continue
                must.add(name)
                s, e = win[t]
                sl = [slice(None)] * g.ndim
                sl[d["axes"].index(t)] = slice(s, e)
                g = g[tuple(sl)]
                if double:
                    g = g * 2
            else:
                if name in res:
                    raise Violation("wrong-datasets", f"{what}: dataset {name} was not asked for")
                continue
            if "chan" in d["axes"]:
                g = take(g, d["axes"].index("chan"), p["sel"])
            if name not in res:
                raise Violation("wrong-datasets", f"{what}: dataset {name} is missing")
            ds = res[name]
            w = f"{what} dataset {name} {d}"
            if d["dist"] and p["src"] in ("dist", "load_dist"):
                if not getattr(ds, "distributed", False):
                    raise Violation("not-distributed", f"{w}: became a common dataset")
                R.check_dist(ds[:], g, d["axes"].index(d["dist"]), size, rank, w)
            else:
                if getattr(ds, "distributed", False):
                    raise Violation("distributed", f"{w}: became distributed")
                R.check_array(np.asarray(ds[:]), g, w, rank)
            if list(c04.norm(np.array(ds.attrs["axis"]).tolist())) != d["axes"]:
                raise Violation("attrs", f"{w}: axis attribute {ds.attrs['axis']}")
            for k, v in d["attrs"].items():
                if k not in ds.attrs or c04.norm(ds.attrs[k]) != c04.norm(c04.attr_value(v)):
                    raise Violation("attrs", f"{w}: attribute {k} is {ds.attrs.get(k)!r}, expected {v!r}")

    def describe(self, program):
        return {k: v for k, v in program.items() if k != "env"}

    def shrink(self, program):
        for i in range(len(program["dsets"])):
            if len(program["dsets"]) > 1:
                yield dict(program, dsets=program["dsets"][:i] + program["dsets"][i + 1:])
        for key in ("attrs",):
            if program[key]:
                yield dict(program, **{key: {}})
        for key in ("filter", "want", "align", "out", "sel"):
            if program[key] is not None:
                yield dict(program, **{key: None})
        for p in super().shrink(program):
            if len(p["ops"]) != len(program["ops"]):
                keep = p["ops"]
                if not keep:
                    continue
                p["lens"] = [program["lens"][program["ops"].index(q)] for q in keep]
                p["slow"] = [program["slow"][program["ops"].index(q)] for q in keep]
            yield p


PROP = P()
