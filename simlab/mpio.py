"""A simulated parallel HDF5 (h5py built with MPI), over the serial h5py that is installed.

``h5py.get_config().mpi`` is true and ``h5py.File(..., driver="mpio", comm=comm)`` opens one file
shared by the ranks of *comm*, with the rules parallel HDF5 has:

- opening and closing the file and everything that changes its structure (datasets, groups, attributes)
  is collective: every rank of the communicator has to make the same call, with the same arguments;
- reads and writes of data are independent, unless the dataset is used inside ``with dset.collective``:
  then every rank has to take part in each, and (h5py #965) a rank whose selection is empty doesn't;
- a dataset with filters can only be written collectively;
- one read or write by one rank moves at most ``limit`` bytes (2 GB in reality).

Calls that don't match abort the simulation as misuse, calls that never come as a deadlock.
"""

import errno

from . import fs as F
from . import sched

_installed = False


def active():
    fs = F.cur()
    return fs if fs is not None and getattr(fs, "mpio", False) else None


class Shared:
    """One open file of the ranks of a communicator."""

    def __init__(self, fs, comm, path, mode):
        self.fs, self.comm, self.path, self.mode = fs, comm, path, mode
        self.f0 = None
        self.calls = {}
        self.res = {}

    def join(self, op, sig):
        """Take part in a collective call; returns its number on this file."""
        r = self.comm.rank
        k = self.calls[r] = self.calls.get(r, 0) + 1
        c = self.comm._collective("h5:" + op, sig)
        if len(set(map(repr, c.values()))) > 1:
            self.comm._n.world.misuse("h5-mismatch", f"{op} of {self.fs.rel(self.path)} was called with different arguments: {dict(sorted(c.items()))}")
        self.fs.sim.probe("h5_" + op)
        return k

    def once(self, op, sig, action):
        """A collective call that has one effect: done by one rank, its outcome is everybody's."""
        k = self.join(op, sig)
        if k not in self.res:
            self.res[k] = None
            try:
                self.res[k] = ("ok", action())
            except Exception as e:  # noqa: BLE001
                self.res[k] = ("error", e)
        elif self.res[k] is None:
            self.fs.sim.block(lambda: self.res[k] is not None, f"h5:{op}")
        how, val = self.res[k]
        if how == "error":
            raise type(val)(*val.args)
        return val


def tag(obj, sh):
    if sh is not None and obj is not None:
        try:
            obj.__dict__["_sim_mpio"] = sh
        except AttributeError:
            pass
    return obj


def sh_of(obj):
    return getattr(obj, "__dict__", {}).get("_sim_mpio")


class Collective:
    def __init__(self, dset):
        self.dset = dset

    def __enter__(self):
        self.dset.__dict__["_sim_coll"] = True

    def __exit__(self, *a):
        self.dset.__dict__.pop("_sim_coll", None)


class Config:
    mpi = True

    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import h5py
    from h5py._hl import selections
    from h5py._hl.attrs import AttributeManager
    from h5py._hl.base import HLObject
    from h5py._hl.dataset import Dataset
    from h5py._hl.files import File
    from h5py._hl.group import Group

    get_config = h5py.get_config
    h5py.get_config = lambda: Config(get_config()) if active() is not None else get_config()

    init, close, driver = File.__init__, File.close, File.driver
    attrs, file_, parent = HLObject.attrs, HLObject.file, HLObject.parent

    def new_init(self, name, mode="r", driver=None, *a, **k):
        fs = active()
        if fs is None or driver != "mpio":
            return init(self, name, mode, driver, *a, **k)
        comm = k.pop("comm")
        k.pop("info", None)
        p = fs.path(name)
        if p is None:
            raise OSError(errno.EACCES, f"outside of the simulated filesystem: {name}")
        dup = comm.Dup()
        shared = fs.mpio_files.setdefault(dup._key(), Shared(fs, dup, p, mode))

        def open_():
            f0 = File.__new__(File)
            init(f0, p, mode)
            shared.f0 = f0

        shared.once("open", (fs.rel(p), mode), open_)
        with F.quiet():
            F.R["h5init"](self, shared.f0.id)
        tag(self, shared)

    def new_close(self):
        sh = self.__dict__.pop("_sim_mpio", None)
        if sh is None:
            return close(self)
        if sched.ACTIVE is None or sched.current() is None or sched.ACTIVE.aborting is not None:
            return None
        sh.once("close", None, lambda: close(sh.f0))

    File.__init__ = new_init
    File.close = new_close
    File.driver = property(lambda self: "mpio" if sh_of(self) is not None else driver.fget(self))
    HLObject.attrs = property(lambda self: tag(attrs.fget(self), sh_of(self)))
    HLObject.file = property(lambda self: tag(file_.fget(self), sh_of(self)))
    HLObject.parent = property(lambda self: tag(parent.fget(self), sh_of(self)))
    for c in (Group, Dataset, File):
        for nm in ("attrs", "file", "parent"):
            if nm in c.__dict__ and c is not HLObject:
                # defined again in the class
                real = c.__dict__[nm]
                setattr(c, nm, property(lambda self, real=real: tag(real.fget(self), sh_of(self))))

    getitem = Group.__getitem__

    def new_getitem(self, name):
        return tag(getitem(self, name), sh_of(self))

    Group.__getitem__ = new_getitem

    def structure(cls, name, back):
        """A call that changes the structure of the file."""
        real = getattr(cls, name)

        def f(self, *a, **k):
            sh = sh_of(self)
            if sh is None or active() is None:
                return real(self, *a, **k)
            sig = (getattr(self, "name", ""), [repr(x)[:200] for x in a], sorted((q, repr(v)[:200]) for q, v in k.items()))
            made = sh.once(name.strip("_"), sig, lambda: real(self, *a, **k))
            if not back:
                return made
            return self[made.name]

        setattr(cls, name, f)

    for nm in ("create_dataset", "create_group", "require_dataset", "require_group"):
        structure(Group, nm, True)
    for nm in ("__delitem__", "__setitem__", "move", "copy"):
        structure(Group, nm, False)
    for nm in ("__setitem__", "__delitem__", "create", "modify"):
        structure(AttributeManager, nm, False)

    def data(name, which, write):
        """A read or write; *which*: the position of the file selection among the arguments."""
        real = getattr(Dataset, name)

        def f(self, *a, **k):
            sh = sh_of(self)
            fs = active()
            if sh is None or fs is None:
                return real(self, *a, **k)
            sel = k.get(which[1], a[which[0]] if len(a) > which[0] else None)
            with F.quiet():
                try:
                    num = selections.select(self.shape, () if sel is None else sel, self).nselect
                except Exception:  # noqa: BLE001
                    return real(self, *a, **k)
                filtered = self.compression is not None or bool(self.id.get_create_plist().get_nfilters())
                size = num * self.dtype.itemsize
            if write and sh.mode == "r":
                raise OSError("Can't write data (no write intent on file)")
            if fs.mpio_limit and fs.mpio_capped(self.name) and size > fs.mpio_limit:
                raise OSError(f"Can't move {size} bytes of {self.name} at once with MPI-IO (the limit is {fs.mpio_limit})")
            if self.__dict__.get("_sim_coll"):
                if num:
                    sh.join("write" if write else "read", self.name)
            elif write and filtered:
                raise OSError("Can't write data (independent write to a dataset with filters)")
            return real(self, *a, **k)

        setattr(Dataset, name, f)

    data("__setitem__", (0, "args"), True)
    data("__getitem__", (0, "args"), False)
    data("write_direct", (2, "dest_sel"), True)
    data("read_direct", (1, "source_sel"), False)

    def collective(self):
        if active() is None:
            raise AttributeError("collective")
        return Collective(self)

    Dataset.collective = property(collective)


def attach(cfg, limit=None, capped=lambda name: True):
    """Like ``fs.attach``, with parallel HDF5."""
    inner = F.attach(cfg)

    def prepare(sim, world):
        inner(sim, world)
        sim.fs.mpio = True
        sim.fs.mpio_files = {}
        sim.fs.mpio_limit = limit
        sim.fs.mpio_capped = capped

    return prepare
