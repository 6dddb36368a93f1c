"""The filesystem seam.

Real files in a private scratch directory, reached only through wrappers of ``open``, ``os``,
``os.path``, ``shutil``, ``h5py.File``/``Dataset`` and zarr's stores and locks.  Every operation of
a simulated rank inside the scratch directory is a scheduling step at which the simulator may inject
an I/O error, a full disk, a torn write, a delay before a new file becomes visible to other ranks, or
a crash of the whole job.  A crash is judged on a snapshot of the directory taken at that instant:
whatever unwinding code does afterwards never reaches it.  Outside a simulation, and for paths outside
the scratch directory, the wrappers do nothing.
"""

import builtins
import errno
import hashlib
import io
import os
import shutil
import uuid

from . import sched

R = {}  # the real functions


class FS:
    """Filesystem state of one simulation."""

    def __init__(self, sim, root, cfg=None):
        cfg = cfg or {}
        self.sim = sim
        self.root = os.path.realpath(root)
        self.err_p = cfg.get("err_p", 0.0)
        self.err_left = cfg.get("err_max", 1)
        self.err_ops = cfg.get("err_ops")  # None: any
        self.err_on = cfg.get("err_on")  # predicate on the path, or None
        self.crash_p = cfg.get("crash_p", 0.0)
        self.crash_ops = cfg.get("crash_ops")
        self.snap = cfg.get("snap")  # where the crash snapshot goes
        self.vis_p = cfg.get("vis_p", 0.0)
        self.stat_step = cfg.get("stat_step", True)
        self.watch = []  # callables run (without a step) after every operation
        self.locks = {}  # lock file -> owner tid
        self.lock_ids = {}  # path -> identity of the lock file there
        self.fds = {}  # descriptor -> path, opened by os.open
        self.regions = []  # (path, start, end, tid): fcntl record locks
        self.short_p = cfg.get("short_p", 0.0)
        self.h5 = {}  # realpath -> [(File, rank, writer)]
        self.h5_open = []
        self.visible = {}  # realpath -> {rank: time}
        self.writing = {}  # realpath -> count of open writers (plain files)
        self.crashed = False
        self.ops = 0
        self.uuid = 0
        self.errors = []
        sim.event_sources.append(self._next_visible)

    def _next_visible(self):
        t = [v for d in self.visible.values() for v in d.values() if v > self.sim.now]
        return min(t) if t else None

    def path(self, p):
        """Absolute path if inside the scratch directory, else None."""
        if isinstance(p, bytes):
            p = p.decode()
        if not isinstance(p, str):
            try:
                p = R["fspath"](p)
            except TypeError:
                return None
            if isinstance(p, bytes):
                p = p.decode()
        a = p if p.startswith("/") else os.path.join(R["getcwd"](), p)
        a = os.path.normpath(a)
        return a if a == self.root or a.startswith(self.root + "/") else None

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def op(self, name, p, mutate=True):
        """One filesystem operation: schedule, then maybe crash or fail."""
        sim = self.sim
        sim.check_abort()
        self.ops += 1
        sim.step()
        rel = self.rel(p)
        sim.log("fs", name, rel if "partial" not in rel else "partial")
        for w in self.watch:
            w(name, p)
        if not mutate:
            return
        if self.crash_p and (self.crash_ops is None or name in self.crash_ops) and sim.chance(self.crash_p):
            self.crash()
        self.maybe_error(name, p)

    def maybe_error(self, name, p):
        sim = self.sim
        if (
            self.err_p and self.err_left > 0 and (self.err_ops is None or name in self.err_ops)
            and (self.err_on is None or self.err_on(p)) and sim.chance(self.err_p)
        ):
            self.err_left -= 1
            e = (errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES)[sim.pick(4)]
            sim.fault("io_error_" + name)
            self.errors.append((name, self.rel(p), e))
            raise OSError(e, os.strerror(e) + " (injected)", str(p))

    def after(self, name, p):
        for w in self.watch:
            w(name + "-done", p)

    def crash(self):
        """Kill every rank here; only what is on disk now survives."""
        sim = self.sim
        self.crashed = True
        sim.fault("crash")
        if self.snap:
            with quiet():
                R["rmtree"](self.snap, ignore_errors=True)
                R["copytree"](self.root, self.snap, symlinks=True)
            for p in sorted(self.writing):
                # a file being written may have lost its tail
                q = os.path.join(self.snap, self.rel(p))
                if R["exists"](q) and sim.chance(0.5):
                    n = os.path.getsize(q)
                    if n:
                        with R["open"](q, "r+b") as fh:
                            fh.truncate(sim.pick(n))
                        sim.fault("torn_write")
        sim.abort("crash", "killed", crash=True)

    # -- visibility ------------------------------------------------------
    def created(self, p, rank):
        if self.vis_p and self.sim.chance(self.vis_p):
            d = {}
            for r in range(self.nranks()):
                if r != rank:
                    d[r] = self.sim.now + (1e-4, 0.5, 3.0, 40.0)[self.sim.pick(4)]
            self.visible[p] = d
            self.sim.fault("late_visibility")

    def nranks(self):
        return 1 + max(st.rank for st in self.sim.threads)

    def sees(self, p):
        d = self.visible.get(p)
        if d is None:
            return True
        return self.sim.now >= d.get(sched.current().rank, 0.0)

    # -- hdf5 ------------------------------------------------------------
    def h5_conflict(self, p, rank, writer):
        for f, r, w in self.h5.get(p, ()):
            if r != rank and (w or writer):
                return True
        return False

    def finish(self):
        """After the simulation: close everything that is still open."""
        for f in self.h5_open:
            try:
                R["h5close"](f)
            except Exception:  # noqa: BLE001
                pass
        self.h5_open = []
        self.h5 = {}
        for fd in self.fds:
            try:
                R["os_close"](fd)
            except OSError:
                pass
        self.fds = {}


def cur():
    """The filesystem of the running simulation, if we are on a simulated thread."""
    st = sched.current()
    if st is None or sched.ACTIVE is None:
        return None
    if st.local.get("in_fs"):
        return None
    return getattr(sched.ACTIVE, "fs", None)


class quiet:
    """No steps or faults from wrapped calls made inside."""

    def __enter__(self):
        st = sched.current()
        self.st = st
        if st is not None:
            st.local["in_fs"] = st.local.get("in_fs", 0) + 1

    def __exit__(self, *a):
        if self.st is not None:
            self.st.local["in_fs"] -= 1


class SimFile:
    """A file opened for writing by a simulated rank."""

    def __init__(self, fs, p, f):
        self.__dict__.update(_fs=fs, _p=p, _f=f, _closed=False)
        fs.writing[p] = fs.writing.get(p, 0) + 1

    def __getattr__(self, k):
        return getattr(self._f, k)

    def write(self, data):
        fs = self._fs
        fs.sim.check_abort()
        fs.op("write", self._p, mutate=False)
        sim = fs.sim
        if fs.crash_p and (fs.crash_ops is None or "write" in fs.crash_ops) and sim.chance(fs.crash_p):
            # only part of the data has reached the disk
            self._f.write(data[: sim.pick(len(data) + 1)] if len(data) else data)
            self._f.flush()
            fs.crash()
        try:
            fs.maybe_error("write", self._p)
        except OSError:
            n = sim.pick(len(data) + 1) if len(data) else 0
            self._f.write(data[:n])
            self._f.flush()
            if n:
                sim.fault("short_write")
            raise
        return self._f.write(data)

    def writelines(self, lines):
        for ln in lines:
            self.write(ln)

    def close(self):
        if self._closed:
            return
        self.__dict__["_closed"] = True
        fs = self._fs
        fs.writing[self._p] -= 1
        if not fs.writing[self._p]:
            del fs.writing[self._p]
        self._f.close()
        if fs.sim.aborting is None:
            fs.op("close", self._p)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        try:
            self.close()
        except OSError:
            if a[0] is None:
                raise
        return False

    def __iter__(self):
        return iter(self._f)

    @property
    def closed(self):
        return self._closed


def _open(file, mode="r", *a, **k):
    fs = cur()
    p = fs.path(file) if fs is not None and not isinstance(file, int) else None
    if p is None:
        return R["open"](file, mode, *a, **k)
    if any(c in mode for c in "wax+"):
        fs.op("create", p)
        f = R["open"](p, mode, *a, **k)
        fs.after("create", p)
        return SimFile(fs, p, f)
    fs.op("read", p, mutate=False)
    return R["open"](p, mode, *a, **k)


def _two(name):
    def f(src, dst, *a, **k):
        fs = cur()
        p = fs.path(src) if fs is not None else None
        q = fs.path(dst) if fs is not None else None
        if p is None or q is None or k or a:
            return R[name](src, dst, *a, **k)
        fs.op(name, p)
        r = R[name](p, q)
        if p in fs.visible:
            fs.visible[q] = fs.visible.pop(p)
        fs.after(name, q)
        return r

    f.__name__ = name
    return f


def _one(name, label=None, mutate=True):
    def f(path, *a, **k):
        fs = cur()
        p = fs.path(path) if fs is not None and not isinstance(path, int) else None
        if p is None or k.get("dir_fd") is not None:
            return R[name](path, *a, **k)
        # making a directory that is there already fails for that reason and no other
        fs.op(label or name, p, mutate and not (name == "mkdir" and R["exists"](p)))
        r = R[name](p, *a, **k)
        if mutate:
            if name in ("remove", "unlink"):
                fs.visible.pop(p, None)
            fs.after(label or name, p)
        return r

    f.__name__ = name
    return f


def _stat(name):
    def f(path):
        fs = cur()
        p = None
        if fs is not None:
            try:
                p = fs.path(path)
            except (TypeError, ValueError):
                p = None
        if p is None:
            return R[name](path)
        fs.sim.check_abort()
        if fs.stat_step:
            fs.sim.step()
        ok = R[name](p)
        if ok and not fs.sees(p):
            fs.sim.probe("not_yet_visible")
            return False
        return ok

    f.__name__ = name
    return f


def _makedirs(name, mode=0o777, exist_ok=False):
    fs = cur()
    p = fs.path(name) if fs is not None else None
    if p is None:
        return R["makedirs"](name, mode, exist_ok)
    fs.op("makedirs", p)
    with quiet():
        r = R["makedirs"](p, mode, exist_ok)
    fs.after("makedirs", p)
    return r


def _rmtree(path, ignore_errors=False, *a, **k):
    fs = cur()
    p = fs.path(path) if fs is not None else None
    if p is None:
        return R["rmtree"](path, ignore_errors, *a, **k)
    return _rmtree_in(fs, p, ignore_errors)


def _rmtree_in(fs, p, ignore_errors):
    """Entry by entry, as the real one."""
    try:
        fs.op("rmtree", p, mutate=False)
        if os.path.islink(p):
            raise OSError("Cannot call rmtree on a symbolic link")
        for e in sorted(R["listdir"](p)):
            q = os.path.join(p, e)
            if R["isdir"](q) and not os.path.islink(q):
                _rmtree_in(fs, q, ignore_errors)
            else:
                fs.op("unlink", q)
                R["unlink"](q)
                fs.after("unlink", q)
        fs.op("rmdir", p)
        R["rmdir"](p)
        fs.after("rmdir", p)
    except OSError:
        if not ignore_errors:
            raise


# -- h5py ------------------------------------------------------------------------
def _patch_h5py():
    import h5py
    from h5py._objects import phil
    from h5py._hl.dataset import Dataset
    from h5py._hl.files import File
    from h5py._hl.group import Group

    R["h5init"] = File.__init__
    R["h5close"] = File.close

    def init(self, name, mode="r", *a, **k):
        fs = cur()
        p = fs.path(name) if fs is not None and isinstance(name, (str, bytes, os.PathLike)) else None
        if p is None:
            return R["h5init"](self, name, mode, *a, **k)
        rank = sched.current().rank
        writer = mode != "r"
        fs.op("h5open-" + mode, p, mutate=writer)
        if not writer:
            fs.maybe_error("h5read", p)
        if not fs.sees(p):
            fs.sim.probe("open_before_visible")
            if mode in ("r", "r+"):
                raise FileNotFoundError(errno.ENOENT, f"Unable to open file (not visible yet) {fs.rel(p)}")
        if fs.h5_conflict(p, rank, writer):
            fs.sim.probe("h5_lock_conflict")
            raise BlockingIOError(errno.EAGAIN, f"Unable to lock file {fs.rel(p)} (opened by another process)")
        new = not R["exists"](p)
        if "mode" in k:
            k.pop("mode")
        with quiet():
            R["h5init"](self, p, mode, *a, **k)
        fs.h5.setdefault(p, []).append((self, rank, writer))
        fs.h5_open.append(self)
        self._sim_path = p
        if new:
            fs.created(p, rank)
        fs.after("h5open-" + mode, p)

    def close(self):
        p = self.__dict__.get("_sim_path")
        if p is None:
            return R["h5close"](self)
        sim = sched.ACTIVE
        fs = getattr(sim, "fs", None) if sim is not None else None
        del self.__dict__["_sim_path"]
        if fs is not None and sched.current() is not None and sim.aborting is None and not phil._is_owned():
            try:
                fs.op("h5close", p, mutate=True)
            finally:
                _drop(fs, self, p)
        else:
            if fs is not None:
                _drop(fs, self, p)
            else:
                R["h5close"](self)

    def _drop(fs, f, p):
        lst = fs.h5.get(p, [])
        fs.h5[p] = [x for x in lst if x[0] is not f]
        if f in fs.h5_open:
            fs.h5_open = [x for x in fs.h5_open if x is not f]
        with quiet():
            R["h5close"](f)

    def exit_(self, *a):
        if self.id:
            self.close()

    File.__init__ = init
    File.close = close
    File.__exit__ = exit_  # the original calls close() with h5py's global lock held

    def wrap(cls, name, label, mutate):
        real = getattr(cls, name)

        def f(self, *a, **k):
            fs = cur()
            if fs is None or phil._is_owned():
                return real(self, *a, **k)
            p = None
            try:
                p = fs.path(self.file.filename)
            except (ValueError, RuntimeError, TypeError):
                p = None
            if p is None:
                return real(self, *a, **k)
            fs.op(label, p, mutate)
            if not mutate:
                fs.maybe_error("h5read", p)
            with quiet():
                return real(self, *a, **k)

        f.__name__ = name
        setattr(cls, name, f)

    wrap(Dataset, "__setitem__", "h5write", True)
    wrap(Dataset, "write_direct", "h5write", True)
    wrap(Dataset, "__getitem__", "h5data", False)
    wrap(Dataset, "read_direct", "h5data", False)
    wrap(Group, "create_dataset", "h5write", True)
    wrap(Group, "create_group", "h5write", True)
    wrap(Group, "require_dataset", "h5write", True)
    wrap(Group, "require_group", "h5write", True)
    R["h5py"] = h5py


# -- zarr ------------------------------------------------------------------------
class ZLock:
    """An inter-process lock file; two processes exclude each other only through the same file."""

    def __init__(self, path):
        self.path = path
        self.ino = None

    def acquire(self):
        fs = cur()
        sim = fs.sim
        sim.step()
        with quiet():
            # a file that was removed and made again is another file
            if not R["exists"](self.path) or self.path not in fs.lock_ids:
                fs.lock_ids[self.path] = len(fs.lock_ids), fs.ops, sim.steps
            self.ino = fs.lock_ids[self.path]
            R["makedirs"](os.path.dirname(self.path), exist_ok=True)
            R["open"](self.path, "a").close()
        me = sched.current().tid
        while fs.locks.get(self.ino) not in (None, me):
            sim.probe("zarr_lock_contended")
            sim.block(lambda: fs.locks.get(self.ino) is None, "zarr lock")
        fs.locks[self.ino] = me
        fs.after("zlock", self.path)

    def release(self):
        sim = sched.ACTIVE
        fs = getattr(sim, "fs", None)
        if fs is not None:
            fs.locks.pop(self.ino, None)
            if sim.aborting is None:
                sim.step()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _patch_zarr():
    import zarr.storage
    import zarr.sync

    real = zarr.sync.ProcessSynchronizer.__getitem__

    def getitem(self, item):
        fs = cur()
        p = fs.path(self.path) if fs is not None else None
        if p is None:
            return real(self, item)
        return ZLock(os.path.join(p, str(item)))

    zarr.sync.ProcessSynchronizer.__getitem__ = getitem

    real4 = uuid.uuid4

    def uuid4():
        fs = cur()
        if fs is None:
            return real4()
        fs.uuid += 1
        return uuid.UUID(int=fs.uuid)

    uuid.uuid4 = uuid4


_installed = False


def dir_order(names, key=lambda x: x):
    """Directory listings come in an order of their own on every process."""
    sim = sched.active()
    names = sorted(names, key=key)
    if sim is None or len(names) < 2:
        return names
    salt, r = getattr(sim, "hash_salt", 0), sched.current().rank
    if not salt:
        return names
    sim.probe("dir_order")
    return sorted(names, key=lambda x: hashlib.blake2b(f"{salt}/{r}/{key(x)!r}".encode(), digest_size=8).digest())


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path="."):
    if sched.active() is None:
        return R["scandir"](path)
    with R["scandir"](path) as it:
        return _Scan(dir_order(list(it), key=lambda e: e.name))


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R.update(
        open=builtins.open, fspath=os.fspath, getcwd=os.getcwd, rename=os.rename, replace=os.replace,
        remove=os.remove, unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir, makedirs=os.makedirs,
        listdir=os.listdir, scandir=os.scandir, exists=os.path.exists, isdir=os.path.isdir, isfile=os.path.isfile,
        rmtree=shutil.rmtree, copytree=shutil.copytree,
    )
    _patch_h5py()
    _patch_zarr()
    builtins.open = _open
    io.open = _open
    os.rename = _two("rename")
    os.replace = _two("replace")
    os.remove = _one("remove")
    os.unlink = _one("unlink")
    os.mkdir = _one("mkdir")
    os.rmdir = _one("rmdir")
    os.listdir = _one_list()
    os.scandir = _scandir
    os.makedirs = _makedirs
    for n in ("exists", "isdir", "isfile"):
        setattr(os.path, n, _stat(n))
    shutil.rmtree = _rmtree
    shutil._USE_CP_SENDFILE = False  # copies go through write(), where they can fail
    _patch_fd()


def _patch_fd():
    """Descriptors: os.open/os.write/fcntl.lockf, with short writes and record locks between ranks."""
    import fcntl

    R.update(os_open=os.open, os_write=os.write, os_close=os.close, lockf=fcntl.lockf)

    def os_open(path, flags, *a, **k):
        fs = cur()
        p = fs.path(path) if fs is not None and not isinstance(path, int) else None
        if p is None or k.get("dir_fd") is not None:
            return R["os_open"](path, flags, *a, **k)
        fs.op("os_open", p, bool(flags & (os.O_WRONLY | os.O_RDWR)))
        fd = R["os_open"](p, flags, *a, **k)
        fs.fds[fd] = p
        return fd

    def os_write(fd, data):
        fs = cur()
        if fs is None or fd not in fs.fds:
            return R["os_write"](fd, data)
        fs.op("os_write", fs.fds[fd])
        n = len(memoryview(data).cast("B")) if memoryview(data).nbytes else 0
        if fs.short_p and n > 1 and fs.sim.chance(fs.short_p):
            fs.sim.fault("short_write")
            data = bytes(memoryview(data).cast("B")[: 1 + fs.sim.pick(n - 1)])
        return R["os_write"](fd, data)

    def os_close(fd):
        fs = cur()
        if fs is not None and fd in fs.fds:
            p = fs.fds.pop(fd)
            me = sched.current().tid
            # POSIX: closing any descriptor of a file drops all of the process's record locks on it
            fs.regions = [r for r in fs.regions if not (r[0] == p and r[3] == me)]
            R["os_close"](fd)
            fs.op("os_close", p, False)
            return None
        return R["os_close"](fd)

    def lockf(fd, cmd, len=0, start=0, whence=0):
        fs = cur()
        if fs is None or fd not in fs.fds or whence != 0:
            return R["lockf"](fd, cmd, len, start, whence)
        p, me = fs.fds[fd], sched.current().tid
        a, b = start, (start + len if len else float("inf"))
        if cmd & fcntl.LOCK_UN:
            keep = []
            for r in fs.regions:
                if r[0] != p or r[3] != me or r[2] <= a or r[1] >= b:
                    keep.append(r)
                    continue
                if r[1] < a:
                    keep.append((p, r[1], a, me))
                if r[2] > b:
                    keep.append((p, b, r[2], me))
            fs.regions = keep
            return None

        def free():
            return not any(r[0] == p and r[3] != me and r[1] < b and a < r[2] for r in fs.regions)

        fs.sim.step()
        if not free():
            if cmd & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, "locked")
            fs.sim.probe("record_lock_contended")
            fs.sim.block(free, "record lock")
        fs.regions.append((p, a, b, me))
        return None

    R["fdopen"] = os.fdopen

    def fdopen(fd, mode="r", *a, **k):
        fs = cur()
        p = fs.fds.get(fd) if fs is not None else None
        f = R["fdopen"](fd, mode, *a, **k)
        if p is None or not any(c in mode for c in "wax+"):
            return f
        del fs.fds[fd]  # the file object closes it
        return SimFile(fs, p, f)

    os.open, os.write, os.close, fcntl.lockf = os_open, os_write, os_close, lockf
    os.fdopen = fdopen


def _one_list():
    def listdir(path="."):
        fs = cur()
        p = fs.path(path) if fs is not None and not isinstance(path, int) else None
        if p is None:
            return dir_order(R["listdir"](path))
        fs.op("listdir", p, False)
        return dir_order(R["listdir"](p))

    return listdir


def attach(cfg):
    """A ``prepare`` hook for Ctx.simulate giving the simulation a filesystem."""

    def prepare(sim, world):
        sim.fs = FS(sim, cfg["root"], cfg)

    return prepare


def detach(sim, world):
    if getattr(sim, "fs", None) is not None:
        sim.fs.finish()
