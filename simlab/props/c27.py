"""C27: containers on disk and in memory, moved between the two, against a model of trees and files."""

import copy
import json
import os
import shutil

import numpy as np

from .. import fs as F
from .. import harness, models
from ..sched import Violation, current

R = models
DTYPES = ["f8", "f4", "i4", "i8", "c16", "u1", "S3"]
NAMES = ["x", "y", "g/x", "g/z", "g/h/w", "k/x"]
GROUPS = ["g", "g/h", "k", "m"]
ATTRS = [3, -2.5, "text", "", True, "é"]


def value(spec):
    shape, dt, salt = spec
    if dt == "S3":
        n = int(np.prod(shape))
        return np.array([b"%03d" % ((salt + k) % 1000) for k in range(n)], dtype="S3").reshape(shape)
    return R.make(shape, dt, salt)


class Tree:
    """groups {path: attrs}, datasets {path: [array, attrs]}"""

    def __init__(self):
        self.g = {"": {}}
        self.d = {}
        self.hint = None  # the class noted in the file or container

    def copy(self):
        return copy.deepcopy(self)

    def group(self, path):
        parts = [x for x in path.split("/") if x]
        for k in range(1, len(parts) + 1):
            self.g.setdefault("/".join(parts[:k]), {})

    def remove(self, path):
        pre = path + "/"
        self.g = {k: v for k, v in self.g.items() if k != path and not k.startswith(pre)}
        self.d = {k: v for k, v in self.d.items() if k != path and not k.startswith(pre)}

    def show(self):
        return f"groups {sorted(self.g)} datasets {sorted(self.d)}"


def plain(v):
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.generic):
        return v.item()
    return v


JSON = "!!_memh5_json:"


def attrs_of(a):
    out = {k: plain(a[k]) for k in a if not k.startswith("__memh5")}
    if type(a).__module__.startswith(("h5py", "zarr")):
        # files hold mappings as JSON
        out = {k: json.loads(v[len(JSON) :]) if isinstance(v, str) and v.startswith(JSON) else v for k, v in out.items()}
    return out


def read(node, is_group):
    """What an object (ours, h5py's or zarr's) shows."""
    t = Tree()

    def walk(n, path):
        t.g[path] = attrs_of(n.attrs)
        for k in n:
            c = n[k]
            p = f"{path}/{k}" if path else k
            if is_group(c):
                walk(c, p)
            else:
                t.d[p] = [np.array(c[...] if not hasattr(c, "local_data") else c[:]), attrs_of(c.attrs)]

    walk(node, "")
    return t


def compare(got, want, what, kind):
    if set(got.g) != set(want.g) or set(got.d) != set(want.d):
        raise Violation(kind, f"{what}: {got.show()}, expected {want.show()}")
    for k, a in want.g.items():
        if got.g[k] != a:
            raise Violation(kind, f"{what}: attributes of group {k or '/'} are {got.g[k]}, expected {a}")
    for k, (v, a) in want.d.items():
        if not R.same(got.d[k][0], v):
            raise Violation(kind, f"{what}: {k} {R.describe_diff(got.d[k][0], v)}")
        if got.d[k][1] != a:
            raise Violation(kind, f"{what}: attributes of {k} are {got.d[k][1]}, expected {a}")


class Obj:
    def __init__(self, obj, kind, path, writable, tree, typ):
        self.obj, self.kind, self.path, self.writable, self.tree, self.typ = obj, kind, path, writable, tree, typ
        self.raw = None  # the file, if somebody else opened it
        self.base = None  # the container this one was made around


class P(harness.Prop):
    id = "C27"
    title = "A container on disk and its copies in memory or in other files hold the same data"
    rule = (
        "a run = up to 14 operations (create, open in any mode, write, attributes, delete, flush, close, load, to memory, to disk, save, copy) on up to 4 "
        "containers in memory, HDF5 or zarr, every open container and closed file compared with a model after every step, the files as another process "
        "would find them if this one were killed after a flush; or 2..4 ranks writing parts of one zarr container that share chunks through containers opened on disk"
    )
    real = ("caput.memdata", "h5py (serial)", "zarr")
    stub = ("mpi4py (simulated network)", "clock", "shared filesystem, HDF5 and zarr lock files")
    quick_runs = 15000
    thorough_runs = 120000
    assumptions = ("one process uses an HDF5 file at a time", "a container is not saved onto the file it lives in")

    def load(self):
        import h5py
        import zarr
        from caput import memdata
        from caput.memdata import fileformats
        from caput.util import mpitools

        self.h5py, self.zarr, self.md, self.ff, self.mt = h5py, zarr, memdata, fileformats, mpitools

        class DiskCont(memdata.MemDiskGroup):
            pass

        DiskCont.__module__ = __name__
        globals()["DiskCont"] = DiskCont

        class PickyCont(memdata.MemDiskGroup):
            @staticmethod
            def group_name_allowed(name):
                return "k" not in name.split("/")

            @staticmethod
            def dataset_name_allowed(name):
                return not name.endswith("y")

        PickyCont.__module__ = __name__
        globals()["PickyCont"] = PickyCont

    # -- programs -------------------------------------------------------------------
    def generate(self, rng, i):
        env = harness.gen_env(rng)
        if rng.random() < 0.2:
            n = rng.choice([2, 2, 3, 4])
            size = rng.choice([4, 6, 8, 12])
            ops = []
            for _ in range(rng.randrange(2, 9)):
                ops.append([rng.randrange(n), rng.randrange(size), rng.choice([1, 1, 2, 3])])
            return {"kind": "shared", "n": n, "size": size, "chunk": rng.choice([2, 3, 5, size]), "ops": ops, "how": rng.choice(["with", "close"]), "mode": rng.choice(["a", "r+"]), "env": env}
        ops = []
        for _ in range(rng.randrange(2, 15)):
            w = rng.choice(["new", "open", "ds", "ds", "ds", "write", "write", "attr", "attr", "group", "del", "flush", "close", "load", "to_memory", "to_disk", "save", "copy", "require", "wrap", "around"])
            ops.append([w, rng.randrange(100), rng.randrange(100), rng.randrange(100)])
        return {"kind": "history", "n": 1, "first": rng.choice(["mem", "h5", "zarr"]), "cls": rng.choice(["DiskCont", "DiskCont", "MemDiskGroup", "PickyCont"]), "ops": ops,
                "err_p": rng.choice([0, 0, 0, 0.02]), "env": env}

    def directed(self):
        env = dict(harness.QUIET)
        out = []
        for first in ("mem", "h5", "zarr"):
            base = {"kind": "history", "n": 1, "first": first, "cls": "DiskCont", "err_p": 0, "env": env}
            ds = [["ds", 0, 0, 0], ["ds", 0, 2, 3], ["attr", 0, 1, 1], ["attr", 0, 3, 2]]
            for f in (0, 1, 2, 3):
                out.append(dict(base, ops=ds + [["flush", 0, 0, 0], ["to_disk", 0, f, 1], ["save", 0, f, 0], ["to_memory", 0, 0, 0], ["close", 0, 0, 0], ["open", 0, f, 0]]))
                out.append(dict(base, ops=ds + [["to_disk", 0, f, 1], ["to_memory", 1, 0, 0], ["to_disk", 1, f + 1, 0], ["flush", 1, 0, 0], ["close", 1, 0, 0]]))
        out.append({"kind": "shared", "n": 2, "size": 4, "chunk": 4, "ops": [[0, 0, 1], [1, 2, 1], [1, 3, 1]], "how": "close", "mode": "a", "env": env})
        return out

    # -- histories ------------------------------------------------------------------
    def execute(self, program, ctx):
        p = copy.deepcopy(program)
        (self.shared if p["kind"] == "shared" else self.history)(p, ctx)

    def history(self, p, ctx):
        d0 = ctx.dir()

        raws = []

        def rank_main(r):
            try:
                self.play(p, ctx, d0, raws)
            finally:
                for f in raws:
                    f.close()

        def prepare(sim, world):
            F.attach({"root": d0, "err_p": p["err_p"], "err_max": 2, "stat_step": False})(sim, world)

        run = ctx.simulate(1, rank_main, p["env"], prepare=prepare, finish=F.detach, max_steps=120000)
        ctx.require_clean(run, f"{p['first']} {p['cls']}")

    def cls(self, p):
        return self.md.MemDiskGroup if p["cls"] == "MemDiskGroup" else globals()[p["cls"]]

    def fmt(self, path):
        return self.ff.Zarr if path.endswith(".zarr") else self.ff.HDF5

    def raw(self, path):
        """The file as it is on the disk, read without the code under test."""
        with F.quiet():
            if path.endswith(".zarr"):
                return read(self.zarr.open_group(path, mode="r"), lambda c: isinstance(c, self.zarr.Group))
            with self.h5py.File(path, "r") as f:
                return read(f, lambda c: isinstance(c, self.h5py.Group))

    def as_left(self, path, d0):
        """The file as left by a process killed now."""
        dst = os.path.join(os.path.dirname(d0), "killed" + os.path.splitext(path)[1])
        with F.quiet():
            shutil.rmtree(dst, ignore_errors=True)
            if os.path.isdir(path):
                shutil.copytree(path, dst)
            else:
                shutil.copyfile(path, dst)
            try:
                return self.raw(dst)
            finally:
                shutil.rmtree(dst) if os.path.isdir(dst) else os.remove(dst)

    def play(self, p, ctx, d0, raws):
        cls = self.cls(p)
        fs = current().sim.fs if hasattr(current(), "sim") else F.cur()
        objs, files = [], {}  # open containers; closed files -> tree (None: unknown)
        picky = p["cls"] == "PickyCont"
        count = [0]
        log = []

        def fresh(a):
            count[0] += 1
            return os.path.join(d0, f"f{count[0]}" + (".zarr" if a % 2 else ".h5"))

        def allowed(name, dataset, o):
            parts = name.split("/")
            if not (picky and o.typ is cls):
                return True
            return not name.endswith("y") if dataset else "k" not in parts

        def visible(o):
            tree = o.tree
            if not (picky and o.typ is cls):
                return tree
            t = Tree()
            t.g = {k: v for k, v in tree.g.items() if all(allowed("/".join(k.split("/")[: q + 1]), False, o) for q in range(len(k.split("/"))))}
            t.d = {k: v for k, v in tree.d.items() if allowed(k, True, o) and ("/" not in k or k.rsplit("/", 1)[0] in t.g)}
            return t

        def check():
            w = f"{p['cls']} after {log}"
            for o in objs:
                compare(read(o.obj, lambda c: hasattr(c, "create_group")), visible(o), f"{w}: the container in {o.path or 'memory'}", "wrong-data")
                if o.obj.ondisk != (o.kind != "mem"):
                    raise Violation("wrong-kind", f"{w}: ondisk of the container in {o.path or 'memory'} is {o.obj.ondisk}")
                if type(o.obj) is not o.typ:
                    raise Violation("wrong-kind", f"{w}: the container in {o.path or 'memory'} is a {type(o.obj).__name__}")
            for path, t in files.items():
                if t is not None:
                    compare(self.raw(path), t, f"{w}: the file {os.path.basename(path)}", "wrong-file")

        def add(obj, path, writable, tree, typ):
            kind = "mem" if path is None else ("zarr" if path.endswith(".zarr") else "h5")
            objs.append(Obj(obj, kind, path, writable, tree.copy(), typ))

        def root(o):
            return o if o.base is None else root(o.base)

        def closed(o):
            objs.remove(o)
            if o.path is None or o.base is not None:
                return  # one of several around the same file: its owner is still open
            for s in [s for s in objs if root(s) is o]:
                objs.remove(s)
            if o.raw is not None:
                with F.quiet():
                    try:
                        got = read(o.raw, lambda c: hasattr(c, "create_group"))
                    except Exception as e:  # noqa: BLE001
                        raise Violation("closed-for-others", f"{p['cls']} after {log}: {os.path.basename(o.path)}, opened by the caller, cannot be used any more ({e})")
                    compare(got, o.tree, f"{p['cls']} after {log}: the caller's file", "wrong-file")
                    if o.kind == "h5":
                        o.raw.close()
                files[o.path] = o.tree
                return
            if o.kind == "h5":
                if o.writable and fs.h5_conflict(os.path.realpath(o.path), 99, True):
                    raise Violation("not-closed", f"{p['cls']} after {log}: {os.path.basename(o.path)} is still open after the container was closed")
            files[o.path] = o.tree

        def new(a):
            if a == 0:
                add(cls(), None, True, Tree(), cls)
                return
            path = fresh(a)
            kw = {"file_format": self.fmt(path)} if count[0] % 2 else {}
            files.pop(path, None)
            add(cls(path, **kw), path, True, Tree(), cls)

        first = {"mem": 0, "h5": 2, "zarr": 1}[p["first"]]
        for what, a, b, c in [["first", 0, first, 0]] + p["ops"]:
            nerr = len(fs.errors)
            o = objs[a % len(objs)] if objs else None
            names = sorted(visible(o).d) if o else []
            step = None
            try:
                if what == "first":
                    new(b)
                elif what == "new" and len(objs) < 4:
                    step = f"new {b % 3}"
                    log.append(step)
                    new(b % 3)
                elif what in ("open", "load") and files:
                    path = sorted(files)[b % len(files)]
                    if files[path] is None:
                        continue
                    if what == "load":
                        log.append(f"load {os.path.basename(path)}")
                        src = self.md.MemDiskGroup if c % 2 else cls
                        add(src.from_file(path), None, True, files[path], files[path].hint or src)
                    elif len(objs) < 4:
                        mode = ["r", "a", "r+"][c % 3]
                        log.append(f"open {os.path.basename(path)} {mode}")
                        src = self.md.MemDiskGroup if c % 2 else cls
                        ob = src.from_file(path, ondisk=True, mode=mode)
                        add(ob, path, mode != "r", files[path], files[path].hint or src)
                        del files[path]
                elif what == "wrap" and len(objs) < 4 and (c % 4 == 3 or any(t is not None for t in files.values())):
                    if c % 4 == 3:
                        path, mode = fresh(b), "w"
                        files[path] = Tree()
                    else:
                        ok = sorted(k for k, t in files.items() if t is not None)
                        path, mode = ok[b % len(ok)], ["r", "a", "r+"][c % 3]
                    log.append(f"wrap {os.path.basename(path)} {mode} {a % 3}")
                    with F.quiet():
                        raw = self.zarr.open_group(path, mode=mode) if path.endswith(".zarr") else self.h5py.File(path, mode)
                    if not path.endswith(".zarr"):
                        raws.append(raw)
                    t = files.pop(path)
                    src = self.md.MemDiskGroup if c % 2 else cls
                    ob = [src, lambda f: src.from_file(f, ondisk=True), src.from_group][a % 3](raw)
                    add(ob, path, mode != "r", t, src if a % 3 == 0 else t.hint or src)
                    objs[-1].raw = raw
                    ctx.probe("borrowed_file")
                elif o is None:
                    continue
                elif what == "around" and len(objs) < 4:
                    log.append(f"around {o.path and os.path.basename(o.path)}")
                    src = self.md.MemDiskGroup if c % 2 else cls
                    add(src(o.obj), o.path, o.writable, o.tree, src)
                    objs[-1].tree = o.tree
                    objs[-1].base = o
                elif what in ("ds", "require") and o.writable:
                    nm = NAMES[b % len(NAMES)]
                    if nm in o.tree.d or nm in o.tree.g or any(nm.startswith(k + "/") for k in o.tree.d):
                        continue
                    spec = [[[3], [2, 3], [1], [4, 2]][c % 4], DTYPES[(b + c) % len(DTYPES)], a + b]
                    if any(not allowed("/".join(nm.split("/")[:q]), False, o) for q in range(1, nm.count("/") + 1)):
                        continue
                    v = value(spec)
                    log.append(f"{what} {nm} in {o.path and os.path.basename(o.path)}")
                    if not allowed(nm, True, o):
                        try:
                            o.obj.create_dataset(nm, data=v)
                        except ValueError:
                            continue
                        raise Violation("forbidden-name", f"{p['cls']} after {log}: a dataset with a forbidden name was created")
                    parent = nm.rsplit("/", 1)[0] if "/" in nm else ""
                    if parent:
                        o.obj.require_group(parent)
                        o.tree.group(parent)
                    if what == "ds":
                        o.obj.create_dataset(nm, data=v)
                    else:
                        ds = o.obj.require_dataset(nm, shape=v.shape, dtype=v.dtype)
                        ds[:] = v
                        o.obj.require_dataset(nm, shape=v.shape, dtype=v.dtype)
                    o.tree.d[nm] = [v, {}]
                elif what == "write" and o.writable and names:
                    nm = names[b % len(names)]
                    v = o.tree.d[nm][0]
                    k = c % v.shape[0]
                    x = value([list(v.shape), v.dtype.str[1:] if v.dtype.kind == "S" else v.dtype.str[1:], a + b + c + 1])[k]
                    log.append(f"write {nm}[{k}] in {o.path and os.path.basename(o.path)}")
                    v = v.copy()
                    v[k] = x
                    o.obj[nm][k] = x
                    o.tree.d[nm][0] = v
                elif what == "attr" and o.writable:
                    ks = [""] + sorted(visible(o).g)[1:] + names
                    k = ks[b % len(ks)]
                    av = ATTRS[c % len(ATTRS)] if o.path or (a + b + c) % 3 else {"x": c, "y": {"z": [1, "two"]}}
                    log.append(f"attr {k or '/'} in {o.path and os.path.basename(o.path)}")
                    (o.obj[k] if k else o.obj).attrs[f"a{c % 3}"] = av
                    (o.tree.d[k][1] if k in o.tree.d else o.tree.g[k])[f"a{c % 3}"] = av
                elif what == "group" and o.writable:
                    k = GROUPS[b % len(GROUPS)]
                    if k in o.tree.g or k in o.tree.d:
                        continue
                    log.append(f"group {k} in {o.path and os.path.basename(o.path)}")
                    if not allowed(k, False, o):
                        try:
                            o.obj.create_group(k)
                        except ValueError:
                            continue
                        raise Violation("forbidden-name", f"{p['cls']} after {log}: a group with a forbidden name was created")
                    o.obj.create_group(k) if c % 2 else o.obj.require_group(k)
                    o.tree.group(k)
                elif what == "del" and o.writable:
                    t = visible(o)
                    ks = sorted(t.g)[1:] + names
                    if not ks:
                        continue
                    k = ks[b % len(ks)]
                    log.append(f"del {k} in {o.path and os.path.basename(o.path)}")
                    del o.obj[k]
                    o.tree.remove(k)
                elif what == "flush":
                    log.append(f"flush {o.path and os.path.basename(o.path)}")
                    o.obj.flush()
                    if o.path is not None and o.writable:
                        compare(self.as_left(o.path, d0), o.tree, f"{p['cls']} after {log}: the file left by a process killed now", "lost-after-flush")
                        ctx.probe("killed_after_flush")
                elif what == "close":
                    log.append(f"close {o.path and os.path.basename(o.path)}")
                    if c % 2:
                        with o.obj:
                            pass
                    else:
                        o.obj.close()
                    closed(o)
                    if o.path is None:
                        objs.append(o)
                elif what == "to_memory" and len(objs) < 4:
                    if o.kind == "h5" and o.writable:
                        o.obj.flush()
                    log.append(f"to_memory {o.path and os.path.basename(o.path)}")
                    m = o.obj.to_memory()
                    if o.kind == "mem":
                        if m is not o.obj:
                            add(m, None, True, o.tree, o.typ)
                    else:
                        # a container made around a file of another class gives one or the other
                        add(m, None, True, o.tree, type(m) if type(m) in (o.typ, o.tree.hint) else o.typ)
                elif what == "copy" and len(objs) < 4:
                    log.append(f"copy {o.path and os.path.basename(o.path)}")
                    add(o.obj.copy(), None, True, o.tree, o.typ)
                elif what in ("save", "to_disk") and (what == "save" or len(objs) < 4):
                    path = fresh(b)
                    if c % 3 == 0 and files and (b % 2):
                        path = sorted(files)[c % len(files)]  # replaces a closed file
                    log.append(f"{what} {o.path and os.path.basename(o.path)} to {os.path.basename(path)}")
                    files[path] = None
                    t = o.tree.copy()
                    t.hint = t.hint or o.typ
                    if what == "save":
                        o.obj.save(path, file_format=self.fmt(path))
                        files[path] = t
                    else:
                        ob = o.obj.to_disk(path, file_format=self.fmt(path))
                        files.pop(path)
                        add(ob, path, False, t, t.hint)
                    if o.kind == "mem":
                        o.tree.hint = t.hint
                else:
                    continue
                if len(fs.errors) != nerr:
                    ctx.probe("io_error_survived")
                    return
                with F.quiet():
                    check()
            except Violation:
                raise
            except Exception:
                if len(fs.errors) == nerr:
                    raise
                # an injected I/O error: reported; the rest of the run has nothing more to say about it
                ctx.probe("io_error")
                return
            ctx.probe("ops")

    # -- several ranks on one zarr container ---------------------------------------------------
    def shared(self, p, ctx):
        d0 = ctx.dir()
        path = os.path.join(d0, "s.zarr")
        n, size = p["n"], p["size"]
        want = np.arange(float(size))
        z = self.zarr.open_group(path, mode="w")
        z.create_dataset("x", data=want, chunks=(p["chunk"],))
        owner = {}
        plan = {r: [] for r in range(n)}
        for k, (r, start, m) in enumerate(p["ops"]):
            r %= n
            for q in range(start, min(start + m, size)):
                if owner.setdefault(q, r) == r:
                    plan[r].append((q, 100.0 + 10 * k + q))
                    want[q] = 100.0 + 10 * k + q

        def rank_main(r):
            comm = self.mt.MPI.COMM_WORLD

            def work(ob):
                for q, v in plan[r]:
                    ob["x"][q] = v

            ob = self.md.MemDiskGroup.from_file(path, ondisk=True, distributed=True, comm=comm, mode=p["mode"])
            if p["how"] == "with":
                with ob:
                    work(ob)
            else:
                work(ob)
                ob.close()
            comm.Barrier()
            left = [x for x in os.listdir(d0) if x != "s.zarr"]
            if left:
                raise Violation("leftovers", f"{n} ranks: {left} left after all closed the container")

        def prepare(sim, world):
            F.attach({"root": d0, "stat_step": False})(sim, world)

        run = ctx.simulate(n, rank_main, p["env"], prepare=prepare, finish=F.detach, max_steps=120000)
        ctx.require_clean(run, f"shared {p['ops']}")
        got = self.zarr.open_group(path, mode="r")["x"][:]
        if not R.same(got, want):
            raise Violation("lost-write", f"{n} ranks wrote {plan} in chunks of {p['chunk']}: {R.describe_diff(got, want)}")
        ctx.probe("shared")


PROP = P()
