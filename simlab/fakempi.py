"""A simulated ``mpi4py`` package: communicators over the ranks of the active simulation.

Semantics follow the MPI standard where it leaves freedom, and the freedom is what is
searched: eager or synchronous sends, network delay, the order in which messages from
different sources arrive, when the send buffer is read and the receive buffer filled,
and when a rank leaves a collective.  Non-overtaking order per (communicator, source,
destination) is kept.  Outside a simulation the world has one rank.
"""

import pickle
import sys
import types

import numpy as np

from . import sched
from .sched import HarnessError

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
UNDEFINED = -32766
SUCCESS = 0
ERR_TRUNCATE = 15
ERR_OTHER = 16
THREAD_MULTIPLE = 3
IN_PLACE = type("InPlaceType", (), {"__repr__": lambda s: "IN_PLACE"})()
COMM_TYPE_SHARED = 1


class MPIException(RuntimeError):
    def __init__(self, code=ERR_OTHER, msg=""):
        super().__init__(msg or f"MPI error {code}")
        self.error_code = code

    def Get_error_code(self):
        return self.error_code


# -- datatypes ------------------------------------------------------------
class Datatype:
    """A basic or derived datatype, packing to and from bytes."""

    def __init__(self, name, size, extent=None, layout=None):
        self.name = name
        self._size = size
        self._extent = size if extent is None else extent
        self._layout = layout  # byte index array of one element within its extent
        self.committed = layout is None

    def Get_size(self):
        return self._size

    def Get_extent(self):
        return (0, self._extent)

    def Get_name(self):
        return self.name

    size = property(Get_size)
    extent = property(lambda self: self._extent)

    def Commit(self):
        self.committed = True
        return self

    def Free(self):
        pass

    def Create_subarray(self, sizes, subsizes, starts, order=0):
        sizes = [int(s) for s in sizes]
        subsizes = [int(s) for s in subsizes]
        starts = [int(s) for s in starts]
        for n, m, s in zip(sizes, subsizes, starts):
            if m < 1 or m > n or s < 0 or s > n - m:
                raise MPIException(12, "MPI_ERR_ARG: invalid subarray")
        o = "F" if order == ORDER_F else "C"
        idx = np.arange(int(np.prod(sizes)), dtype=np.int64).reshape(sizes, order=o)
        sub = idx[tuple(slice(s, s + m) for s, m in zip(starts, subsizes))].ravel(order=o)
        base = self._layout if self._layout is not None else np.arange(self._size)
        lay = (sub[:, None] * self._extent + np.asarray(base)[None, :]).ravel()
        t = Datatype("subarray", lay.size, int(np.prod(sizes)) * self._extent, lay)
        t.committed = False
        return t

    def Create_contiguous(self, count):
        base = self._layout if self._layout is not None else np.arange(self._size)
        lay = (np.arange(count)[:, None] * self._extent + np.asarray(base)[None, :]).ravel()
        t = Datatype("contiguous", lay.size, count * self._extent, lay)
        t.committed = False
        return t

    def Create_vector(self, count, blocklength, stride):
        base = self._layout if self._layout is not None else np.arange(self._size)
        el = (np.arange(count)[:, None] * stride + np.arange(blocklength)[None, :]).ravel()
        lay = (el[:, None] * self._extent + np.asarray(base)[None, :]).ravel()
        t = Datatype("vector", lay.size, int(el.max() + 1) * self._extent if el.size else 0, lay)
        t.committed = False
        return t

    def Create_resized(self, lb, extent):
        t = Datatype("resized", self._size, extent, self._layout if self._layout is not None else np.arange(self._size))
        t.committed = False
        return t

    def __repr__(self):
        return f"<simulated Datatype {self.name}>"


ORDER_C = 0
ORDER_F = 1

_BASIC = {
    "?": ("C_BOOL", 1), "b": ("SIGNED_CHAR", 1), "h": ("SHORT", 2), "i": ("INT", 4),
    "l": ("LONG", 8), "q": ("LONG_LONG", 8), "B": ("UNSIGNED_CHAR", 1),
    "H": ("UNSIGNED_SHORT", 2), "I": ("UNSIGNED", 4), "L": ("UNSIGNED_LONG", 8),
    "Q": ("UNSIGNED_LONG_LONG", 8), "f": ("FLOAT", 4), "d": ("DOUBLE", 8),
    "g": ("LONG_DOUBLE", 16), "F": ("C_FLOAT_COMPLEX", 8), "D": ("C_DOUBLE_COMPLEX", 16),
    "G": ("C_LONG_DOUBLE_COMPLEX", 32), "c": ("CHAR", 1), "S": ("CHAR", 1),
    "U": ("WCHAR", 4), "M": ("INT64_T", 8), "m": ("INT64_T", 8),
    "p": ("AINT", 8), "n": ("COUNT", 8),
}
_typedict = {k: Datatype(n, s) for k, (n, s) in _BASIC.items()}
# Half precision has no MPI type: the handle is there but communication rejects it
_typedict["e"] = Datatype("NULL", 0)
for _k, _v in {"i1": "b", "i2": "h", "i4": "i", "i8": "l", "u1": "B", "u2": "H", "u4": "I",
               "u8": "L", "f4": "f", "f8": "d", "c8": "F", "c16": "D", "b1": "?"}.items():
    _typedict[_k] = _typedict[_v]
BYTE = Datatype("BYTE", 1)
_typedict["f2"] = _typedict["e"]


class Status:
    def __init__(self):
        self._source = ANY_SOURCE
        self._tag = ANY_TAG
        self._error = SUCCESS
        self._count = 0

    def Get_source(self):
        return self._source

    def Get_tag(self):
        return self._tag

    def Get_error(self):
        return self._error

    def Get_count(self, datatype=BYTE):
        return self._count // max(datatype.Get_size(), 1)

    def Set_error(self, e):
        self._error = e

    def Get_elements(self, datatype):
        return self.Get_count(datatype)

    source = property(Get_source, lambda s, v: setattr(s, "_source", v))
    tag = property(Get_tag, lambda s, v: setattr(s, "_tag", v))
    error = property(Get_error, Set_error)
    count = property(lambda s: s._count)

    def _set(self, msg):
        if msg is not None:
            self._source = msg.src
            self._tag = msg.tag
            self._count = len(msg.data) if msg.data is not None else 0


def _as_u8(obj, writable):
    """Memory of a buffer object, in memory order, as a flat uint8 array."""
    if obj is None:
        return np.zeros(0, np.uint8)
    if isinstance(obj, np.ndarray):
        a = obj
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise BufferError("dlpack: buffer is not contiguous")
        if writable and not a.flags.writeable:
            raise BufferError("buffer is read-only")
        if a.size == 0:
            return np.zeros(0, np.uint8)
        flat = np.asarray(a).reshape(-1, order="A") if not a.flags.c_contiguous else np.asarray(a).reshape(-1)
        # reshape of a contiguous array in its own memory order is a view
        return _bytes_view(flat)
    mv = memoryview(obj)
    if not mv.contiguous:
        raise BufferError("buffer is not contiguous")
    return np.frombuffer(mv, np.uint8)


def _bytes_view(flat):
    return flat.view(np.uint8) if flat.dtype.itemsize else np.zeros(0, np.uint8)


def _infer_type(obj):
    if isinstance(obj, np.ndarray):
        dt = obj.dtype
        if dt.fields is not None:
            raise KeyError(f"cannot map '{dt}' to MPI datatype")
        if dt.kind in "mM":
            raise BufferError("DLPack only supports signed/unsigned integers, float and complex dtypes")
        if not dt.isnative:
            raise BufferError(f"format string '{dt.str}' with non-native byte order")
        if dt.kind in "SU" and dt.itemsize != (1 if dt.kind == "S" else 4):
            raise KeyError(f"cannot map '{dt}' to MPI datatype")
        return _typedict[dt.char]
    return BYTE


class _Buf:
    """A parsed message buffer."""

    def __init__(self, spec, writable=False):
        count = None
        displ = 0
        dtype = None
        if isinstance(spec, (list, tuple)):
            items = list(spec)
            obj = items[0]
            rest = items[1:]
            if rest and (isinstance(rest[-1], (Datatype, str))):
                dtype = rest.pop()
                if isinstance(dtype, str):
                    dtype = _typedict[dtype]
            if rest:
                c = rest.pop(0)
                if isinstance(c, (tuple, list)):
                    count, displ = c
                else:
                    count = c
                if rest and rest[0] is not None:
                    displ = rest.pop(0)
        else:
            obj = spec
        self.obj = obj
        if dtype is None:
            dtype = _infer_type(obj)
        if not dtype.committed:
            raise MPIException(3, "MPI_ERR_TYPE: datatype not committed")
        self.type = dtype
        self.u8 = _as_u8(obj, writable)
        if dtype.name == "NULL":
            raise MPIException(3, "MPI_ERR_TYPE: invalid datatype")
        if count is None:
            ext = dtype.extent
            n = self.u8.size - displ * ext
            count = n // ext if ext else 0
            if ext and n % ext and dtype._layout is None:
                raise ValueError(f"message: buffer length {n} is not multiple of datatype extent {ext}")
        elif displ * dtype.extent + count * dtype.extent > self.u8.size:
            raise ValueError("message: buffer too small for requested count")
        self.count = count
        self.start = displ * dtype.extent

    @property
    def nbytes(self):
        return self.count * self.type.Get_size()

    def _index(self, n=None):
        t = self.type
        n = self.count if n is None else n
        if t._layout is None:
            return None
        return (self.start + np.arange(n)[:, None] * t.extent + t._layout[None, :]).ravel()

    def read(self):
        idx = self._index()
        if idx is None:
            return self.u8[self.start : self.start + self.nbytes].tobytes()
        return self.u8[idx].tobytes()

    def write(self, data):
        if len(data) > self.nbytes:
            raise MPIException(ERR_TRUNCATE, "MPI_ERR_TRUNCATE: message truncated")
        src = np.frombuffer(data, np.uint8)
        idx = self._index()
        if idx is None:
            self.u8[self.start : self.start + src.size] = src
        else:
            self.u8[idx[: src.size]] = src


# -- ops ------------------------------------------------------------------
class Op:
    def __init__(self, name, pyf, npf):
        self.name = name
        self.pyf = pyf
        self.npf = npf

    def __call__(self, x, y):
        return self.pyf(x, y)

    def __repr__(self):
        return f"<Op {self.name}>"


def _maxf(x, y):
    return x if x > y else y if not isinstance(x, np.ndarray) else np.maximum(x, y)


def _pymax(x, y):
    if y > x:
        return y
    return x


def _pymin(x, y):
    if y < x:
        return y
    return x


SUM = Op("SUM", lambda x, y: x + y, np.add)
PROD = Op("PROD", lambda x, y: x * y, np.multiply)
MAX = Op("MAX", _pymax, np.maximum)
MIN = Op("MIN", _pymin, np.minimum)
LAND = Op("LAND", lambda x, y: bool(x) & bool(y), np.logical_and)
LOR = Op("LOR", lambda x, y: bool(x) | bool(y), np.logical_or)
LXOR = Op("LXOR", lambda x, y: bool(x) ^ bool(y), np.logical_xor)
BAND = Op("BAND", lambda x, y: x & y, np.bitwise_and)
BOR = Op("BOR", lambda x, y: x | y, np.bitwise_or)
BXOR = Op("BXOR", lambda x, y: x ^ y, np.bitwise_xor)
MAXLOC = Op("MAXLOC", lambda x, y: x if (x[0] > y[0] or (x[0] == y[0] and x[1] <= y[1])) else y, None)
MINLOC = Op("MINLOC", lambda x, y: x if (x[0] < y[0] or (x[0] == y[0] and x[1] <= y[1])) else y, None)


# -- network --------------------------------------------------------------
class Message:
    __slots__ = ("src", "dst", "ctx", "tag", "data", "sbuf", "arrival", "seq", "matched", "sync", "dropped", "corrupt")


class Network:
    """The message state of one simulation; installed by ``World``."""

    def __init__(self, world):
        self.world = world
        self.sim = world.sim
        self.in_flight = []  # not yet arrived, in send order
        self.unexpected = {}  # (ctx, dst) -> [Message]
        self.posted = {}  # (ctx, dst) -> [Request]
        self.seq = 0
        self.colls = {}  # (ctx, idx) -> state
        self.coll_idx = {}  # (ctx, rank) -> idx
        self.last_arrival = {}
        self.sim.event_sources.append(self.next_event)
        self.sim.pollers.append(self.progress)

    def next_event(self):
        t = [m.arrival for m in self.in_flight if m.arrival > self.sim.now]
        return min(t) if t else None

    def progress(self):
        if not self.in_flight:
            return
        now = self.sim.now
        due = [m for m in self.in_flight if m.arrival <= now]
        if not due:
            return
        due.sort(key=lambda m: (m.arrival, m.seq))
        for m in due:
            self.in_flight.remove(m)
            self.arrive(m)

    def arrive(self, m):
        if m.dropped:
            return
        key = (m.ctx, m.dst)
        for r in self.posted.get(key, ()):
            if r._accepts(m):
                self.posted[key].remove(r)
                self.match(m, r)
                return
        self.unexpected.setdefault(key, []).append(m)

    def match(self, m, r):
        if m.data is None:
            m.data = m.sbuf.read()  # synchronous send: the buffer is read at the match
        m.matched = True
        r._msg = m
        if r._early_fill:
            r._fill()

    def send(self, ctx, src, dst, tag, buf=None, data=None, sync=None, count_fault=True):
        w = self.world
        sim = self.sim
        m = Message()
        m.src, m.dst, m.ctx, m.tag = src, dst, ctx, tag
        m.sbuf = buf
        m.matched = False
        m.dropped = False
        m.corrupt = False
        m.seq = self.seq
        self.seq += 1
        if sync is None:
            mode = w.cfg.get("send_mode", "mixed")
            if mode == "eager":
                sync = False
            elif mode == "sync":
                sync = True
            else:
                sync = sim.pick(2) == 1
        m.sync = sync
        m.data = data if data is not None else (None if sync else buf.read())
        d = 0.0
        if sim.chance(w.cfg.get("delay_p", 0.3)):
            d = (2e-6, 2e-5, 1e-3, 0.2)[sim.pick(4)] * (1 + sim.pick(3))
            if d >= 1e-3:
                sim.fault("msg_delay")
        if w.msg_fault is not None:
            extra = w.msg_fault(m)
            if extra:
                d += extra
        k = (ctx, src, dst)
        m.arrival = max(sim.now + d, self.last_arrival.get(k, 0.0))
        if w.cfg.get("overtake_tags") and d:
            # different tags may overtake each other on the wire; equal tags may not
            k = (ctx, src, dst, tag)
            m.arrival = max(sim.now + d, self.last_arrival.get(k, 0.0))
        self.last_arrival[k] = m.arrival
        w.count_msg(m)
        sim.log("send", ctx, src, dst, tag)
        if m.arrival <= sim.now:
            earlier = [x for x in self.in_flight if (x.ctx, x.src, x.dst) == (ctx, src, dst)]
            if not earlier or w.cfg.get("overtake_tags"):
                self.arrive(m)
                return m
        self.in_flight.append(m)
        return m


class Request:
    """A nonblocking operation."""

    def __init__(self, net=None, kind="null", msg=None, rbuf=None, source=None, tag=None, obj=False):
        self._net = net
        self._kind = kind
        self._msg = msg
        self._rbuf = rbuf
        self._source = source
        self._tag = tag
        self._obj = obj
        self._filled = False
        self._early_fill = False
        self._done = net is None
        self._value = None
        self._error = SUCCESS

    # matching
    def _accepts(self, m):
        return self._source in (ANY_SOURCE, m.src) and self._tag in (ANY_TAG, m.tag)

    def _fill(self):
        if not self._filled:
            self._filled = True
            if self._rbuf is not None:
                try:
                    self._rbuf.write(self._msg.data)
                except MPIException as e:
                    self._error = e.error_code

    def _complete(self):
        if self._done:
            return True
        if self._kind == "send":
            return (not self._msg.sync) or self._msg.matched
        if self._kind == "coll":
            return self._msg()
        return self._msg is not None

    def _finish(self, status=None):
        if self._done:
            return None
        if self._kind == "recv":
            self._fill()
            if status is not None:
                status._set(self._msg)
                status._error = self._error
            self._done = True
            if self._error != SUCCESS:
                raise MPIException(self._error, "MPI_ERR_TRUNCATE: message truncated")
            if self._obj:
                self._value = pickle.loads(self._msg.data)
        else:
            self._done = True
        return self._value

    def Wait(self, status=None):
        if self._done:
            return True
        sim = self._net.sim
        sim.step()
        if not self._complete():
            sim.block(self._complete, f"Wait {self._kind} {self._desc()}")
        sim.log("wait", self._kind)
        self._finish(status)
        return True

    def _desc(self):
        if self._kind == "recv":
            return f"from {self._source} tag {self._tag}"
        if self._kind == "send":
            return f"to {self._msg.dst} tag {self._msg.tag}"
        return ""

    def wait(self, status=None):
        self.Wait(status)
        return self._value

    def Test(self, status=None):
        if self._done:
            return True
        self._net.sim.step()
        if self._complete():
            self._finish(status)
            return True
        return False

    def test(self, status=None):
        f = self.Test(status)
        return (f, self._value if f else None)

    def Get_status(self, status=None):
        if self._done:
            return True
        self._net.sim.step()
        if self._complete():
            if self._kind == "recv":
                self._fill()
                if status is not None:
                    status._set(self._msg)
                    status._error = self._error
            return True
        return False

    get_status = Get_status

    def Cancel(self):
        self._done = True

    def Free(self):
        self._done = True

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for i, r in enumerate(requests):
            r.Wait(statuses[i] if statuses else None)
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Testall(cls, requests, statuses=None):
        reqs = [r for r in requests if not r._done]
        if not reqs:
            return True
        reqs[0]._net.sim.step()
        if all(r._complete() for r in reqs):
            for r in reqs:
                r._finish()
            return True
        return False

    @classmethod
    def Waitany(cls, requests, status=None):
        live = [(i, r) for i, r in enumerate(requests) if not r._done]
        if not live:
            return UNDEFINED
        sim = live[0][1]._net.sim
        sim.step()
        if not any(r._complete() for _, r in live):
            sim.block(lambda: any(r._complete() for _, r in live), "Waitany")
        ready = [(i, r) for i, r in live if r._complete()]
        i, r = ready[sim.pick(len(ready))]
        r._finish(status)
        return i

    @classmethod
    def Waitsome(cls, requests, statuses=None):
        i = cls.Waitany(requests)
        if i == UNDEFINED:
            return None
        return [i] + [j for j, r in enumerate(requests) if not r._done and r._complete() and (r._finish() or True)]


class Prequest(Request):
    pass


REQUEST_NULL = Request()


class Group:
    def __init__(self, ranks):
        self.ranks = list(ranks)

    size = property(lambda s: len(s.ranks))

    def Get_size(self):
        return len(self.ranks)

    def Incl(self, ranks):
        return Group([self.ranks[int(r)] for r in ranks])

    def Excl(self, ranks):
        ex = {int(r) for r in ranks}
        return Group([r for i, r in enumerate(self.ranks) if i not in ex])

    def Free(self):
        pass


# -- communicators ---------------------------------------------------------
def _sim():
    s = sched.active()
    return s


def _world():
    s = sched.active()
    return None if s is None else getattr(s, "world", None)


class Comm:
    """A communicator; the calling rank is that of the running simulated thread."""

    def __init__(self, ctx, ranks_of):
        self._ctx = ctx
        self._ranks_of = ranks_of  # callable -> list of world ranks for the calling rank

    # membership
    def _ranks(self):
        return self._ranks_of()

    def _me(self):
        w = _world()
        return 0 if w is None else sched.current().rank

    def Get_rank(self):
        try:
            return self._ranks().index(self._me())
        except ValueError:
            raise MPIException(5, "MPI_ERR_COMM: not a member") from None

    def Get_size(self):
        return len(self._ranks())

    rank = property(lambda s: s.Get_rank())
    size = property(lambda s: s.Get_size())
    group = property(lambda s: Group(s._ranks()))
    name = property(lambda s: str(s._ctx))

    def Get_name(self):
        return str(self._ctx)

    def Get_group(self):
        return Group(self._ranks())

    def Free(self):
        pass

    def __eq__(self, o):
        return isinstance(o, Comm) and o._ctx == self._ctx

    def __hash__(self):
        return hash(str(self._ctx))

    def __bool__(self):
        return True

    def __reduce__(self):
        raise TypeError("cannot pickle a communicator")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle a communicator")

    def __repr__(self):
        return f"<simulated comm {self._ctx}>"

    @property
    def _n(self):
        w = _world()
        if w is None:
            raise HarnessError("MPI communication outside the simulation")
        return w.net

    def _key(self):
        """Context key; a node-split communicator is one context per node."""
        return (self._ctx, tuple(self._ranks()))

    def Is_inter(self):
        return False

    def Is_intra(self):
        return True

    # point to point, buffers
    def _isend(self, buf, data, dest, tag, sync=None):
        net = self._n
        dest = int(dest)
        if dest == PROC_NULL:
            return Request()
        if not 0 <= dest < self.size:
            raise MPIException(6, f"MPI_ERR_RANK: invalid rank {dest}")
        if tag < 0:
            raise MPIException(4, f"MPI_ERR_TAG: invalid tag {tag}")
        m = net.send(self._key(), self.rank, dest, int(tag), buf=buf, data=data, sync=sync)
        if data is not None:
            m.sync = bool(sync) if sync is not None else m.sync
        return Request(net, "send", msg=m)

    def _irecv(self, buf, source, tag, obj=False):
        net = self._n
        source = int(source)
        if source == PROC_NULL:
            return Request()
        if source != ANY_SOURCE and not 0 <= source < self.size:
            raise MPIException(6, f"MPI_ERR_RANK: invalid rank {source}")
        r = Request(net, "recv", rbuf=buf, source=source, tag=int(tag), obj=obj)
        mode = net.world.cfg.get("fill_mode", "mixed")
        r._early_fill = mode == "early" or (mode == "mixed" and net.sim.pick(2) == 0)
        key = (self._key(), self.rank)
        net.progress()
        q = net.unexpected.get(key, [])
        if source == ANY_SOURCE:
            # legal candidates: the first matching message of each source
            cand = []
            seen = set()
            for m in q:
                if m.src not in seen and r._accepts(m):
                    seen.add(m.src)
                    cand.append(m)
            if cand:
                m = cand[net.sim.pick(len(cand))]
                q.remove(m)
                net.match(m, r)
                return r
        else:
            for m in q:
                if r._accepts(m):
                    q.remove(m)
                    net.match(m, r)
                    return r
        net.posted.setdefault(key, []).append(r)
        return r

    def Isend(self, buf, dest, tag=0):
        b = _Buf(buf)
        self._n.sim.step()
        return self._isend(b, None, dest, tag)

    def Issend(self, buf, dest, tag=0):
        b = _Buf(buf)
        self._n.sim.step()
        return self._isend(b, None, dest, tag, sync=True)

    Irsend = Isend
    Ibsend = Isend

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        b = _Buf(buf, writable=True)
        self._n.sim.step()
        return self._irecv(b, source, tag)

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    def Ssend(self, buf, dest, tag=0):
        self.Issend(buf, dest, tag).Wait()

    Rsend = Send
    Bsend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.Irecv(buf, source, tag).Wait(status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        r.Wait(status)
        s.Wait()

    # point to point, objects
    def isend(self, obj, dest, tag=0):
        self._n.sim.step()
        return self._isend(None, pickle.dumps(obj), dest, tag)

    issend = isend
    ibsend = isend

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).Wait()

    ssend = send
    bsend = send

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self._n.sim.step()
        return self._irecv(None, source, tag, obj=True)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self.irecv(None, source, tag).wait(status)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.irecv(None, source, recvtag)
        s = self.isend(sendobj, dest, sendtag)
        v = r.wait(status)
        s.wait()
        return v

    def _probe(self, source, tag):
        net = self._n
        for m in net.unexpected.get((self._key(), self.rank), []):
            if source in (ANY_SOURCE, m.src) and tag in (ANY_TAG, m.tag):
                return m
        return None

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        net = self._n
        net.sim.step()
        m = self._probe(source, tag)
        if m is None:
            return False
        if status is not None:
            status._source, status._tag = m.src, m.tag
            status._count = len(m.data if m.data is not None else m.sbuf.read())
        return True

    iprobe = Iprobe

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        net = self._n
        net.sim.step()
        if self._probe(source, tag) is None:
            net.sim.block(lambda: self._probe(source, tag) is not None, f"Probe {source} {tag}")
        return self.Iprobe(source, tag, status) or True

    probe = Probe

    # collectives
    def _collective(self, kind, contrib, root=None, need="all"):
        """Take part in the next collective; returns the dict of contributions.

        *need*: which contributions the caller must wait for: 'all', 'root' or 'none'.
        """
        net = self._n
        sim = net.sim
        w = net.world
        key = self._key()
        r = self.rank
        sim.step()
        k = net.coll_idx.get((key, r), 0)
        net.coll_idx[(key, r)] = k + 1
        st = net.colls.setdefault((key, k), {"kind": kind, "root": root, "in": {}, "left": 0})
        if st["kind"] != kind or st["root"] != root:
            w.misuse(
                "collective-mismatch",
                f"rank {r} called {kind}(root={root}) while another rank is in "
                f"{st['kind']}(root={st['root']})",
            )
        st["in"][r] = contrib
        sim.log("coll", kind, k)
        n = self.size
        if need != "all" and w.cfg.get("coll_sync", "mixed") != "never":
            mode = w.cfg.get("coll_sync", "mixed")
            if mode == "always" or sim.pick(2) == 1:
                need = "all"
        if need == "all":
            if len(st["in"]) < n:
                sim.block(lambda: len(st["in"]) >= n, f"{kind} #{k} on {self._ctx}")
        elif need == "root":
            if root not in st["in"]:
                sim.block(lambda: root in st["in"], f"{kind} #{k} on {self._ctx}")
        st["left"] += 1
        if st["left"] == n:
            net.colls.pop((key, k), None)
        return st["in"]

    def Barrier(self):
        if _world() is None:
            return
        self._collective("Barrier", None)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        if _world() is None:
            return pickle.loads(pickle.dumps(obj))
        if self.rank == root:
            data = pickle.dumps(obj)
            self._collective("bcast", data, root, need="none")
            return obj
        c = self._collective("bcast", None, root, need="root")
        return pickle.loads(c[root])

    def Bcast(self, buf, root=0):
        if _world() is None:
            return
        b = _Buf(buf, writable=self.rank != root)
        if self.rank == root:
            self._collective("Bcast", b.read(), root, need="none")
        else:
            b.write(self._collective("Bcast", None, root, need="root")[root])

    def gather(self, sendobj, root=0):
        if _world() is None:
            return [pickle.loads(pickle.dumps(sendobj))]
        me = self.rank
        c = self._collective("gather", pickle.dumps(sendobj), root, need="all" if me == root else "none")
        if me == root:
            return [pickle.loads(c[i]) for i in range(self.size)]
        return None

    def allgather(self, sendobj):
        if _world() is None:
            return [pickle.loads(pickle.dumps(sendobj))]
        c = self._collective("allgather", pickle.dumps(sendobj))
        return [pickle.loads(c[i]) for i in range(self.size)]

    def scatter(self, sendobj=None, root=0):
        if _world() is None:
            return sendobj[0]
        me = self.rank
        data = None
        if me == root:
            lst = list(sendobj)
            if len(lst) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(lst)))
            data = [pickle.dumps(x) for x in lst]
        c = self._collective("scatter", data, root, need="none" if me == root else "root")
        return pickle.loads(c[root][me])

    def alltoall(self, sendobj):
        if _world() is None:
            return list(sendobj)
        me = self.rank
        c = self._collective("alltoall", [pickle.dumps(x) for x in sendobj])
        return [pickle.loads(c[i][me]) for i in range(self.size)]

    def allreduce(self, sendobj, op=SUM):
        if _world() is None:
            return pickle.loads(pickle.dumps(sendobj))
        c = self._collective("allreduce", pickle.dumps(sendobj))
        out = pickle.loads(c[0])
        for i in range(1, self.size):
            out = op(out, pickle.loads(c[i]))
        return out

    def reduce(self, sendobj, op=SUM, root=0):
        if _world() is None:
            return pickle.loads(pickle.dumps(sendobj))
        me = self.rank
        c = self._collective("reduce", pickle.dumps(sendobj), root, need="all" if me == root else "none")
        if me != root:
            return None
        out = pickle.loads(c[0])
        for i in range(1, self.size):
            out = op(out, pickle.loads(c[i]))
        return out

    @staticmethod
    def _arr(buf):
        a = buf[0] if isinstance(buf, (list, tuple)) else buf
        return np.asarray(a)

    def _reduce_arrays(self, c, dtype, op):
        out = np.frombuffer(c[0], dtype).copy()
        for i in range(1, self.size):
            out = op.npf(out, np.frombuffer(c[i], dtype)).astype(dtype, copy=False)
        return out

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        dt = self._arr(src).dtype
        rb = _Buf(recvbuf, writable=True)
        c = self._collective("Allreduce", _Buf(src).read())
        rb.write(self._reduce_arrays(c, dt, op).tobytes())

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        me = self.rank
        src = recvbuf if sendbuf is IN_PLACE else sendbuf
        dt = self._arr(src).dtype
        c = self._collective("Reduce", _Buf(src).read(), root, need="all" if me == root else "none")
        if me == root:
            _Buf(recvbuf, writable=True).write(self._reduce_arrays(c, dt, op).tobytes())

    @staticmethod
    def _vspec(spec, size, writable=False):
        """Parse a [buf, counts, displs, type] spec to (_Buf-like byte ranges)."""
        if not isinstance(spec, (list, tuple)):
            spec = [spec]
        items = list(spec)
        obj = items.pop(0)
        dtype = None
        if items and isinstance(items[-1], (Datatype, str)):
            dtype = items.pop()
            if isinstance(dtype, str):
                dtype = _typedict[dtype]
        if dtype is None:
            dtype = _infer_type(obj)
        counts = displs = None
        if items and isinstance(items[0], (tuple, list)) and len(items) == 1 and len(items[0]) == 2 and np.ndim(items[0][0]) == 1:
            counts, displs = items[0]
        elif items:
            counts = items.pop(0)
            if items and items[0] is not None:
                displs = items.pop(0)
        u8 = _as_u8(obj, writable)
        e = dtype.extent
        if counts is None:
            n = u8.size // e // size
            counts = [n] * size
        counts = [int(counts)] * size if np.ndim(counts) == 0 else [int(x) for x in counts]
        if displs is None:
            displs = np.concatenate([[0], np.cumsum(counts)[:-1]])
        return u8, [(int(d) * e, int(d) * e + int(n) * e) for n, d in zip(counts, displs)]

    def Allgather(self, sendbuf, recvbuf):
        sb = _Buf(sendbuf)
        u8, rng = self._vspec(recvbuf, self.size, True)
        c = self._collective("Allgather", sb.read())
        for i, (a, b) in enumerate(rng):
            d = np.frombuffer(c[i], np.uint8)
            if d.size > b - a:
                raise MPIException(ERR_TRUNCATE, "MPI_ERR_TRUNCATE: message truncated")
            u8[a : a + d.size] = d

    Allgatherv = Allgather

    def Gather(self, sendbuf, recvbuf, root=0):
        me = self.rank
        sb = _Buf(sendbuf)
        c = self._collective("Gather", sb.read(), root, need="all" if me == root else "none")
        if me == root:
            u8, rng = self._vspec(recvbuf, self.size, True)
            for i, (a, b) in enumerate(rng):
                d = np.frombuffer(c[i], np.uint8)
                if d.size > b - a:
                    raise MPIException(ERR_TRUNCATE, "MPI_ERR_TRUNCATE: message truncated")
                u8[a : a + d.size] = d

    Gatherv = Gather

    def Scatter(self, sendbuf, recvbuf, root=0):
        me = self.rank
        data = None
        if me == root:
            u8, rng = self._vspec(sendbuf, self.size)
            data = [u8[a:b].tobytes() for a, b in rng]
        c = self._collective("Scatter", data, root, need="none" if me == root else "root")
        _Buf(recvbuf, writable=True).write(c[root][me])

    Scatterv = Scatter

    def Alltoall(self, sendbuf, recvbuf):
        me = self.rank
        u8, rng = self._vspec(sendbuf, self.size)
        r8, rrng = self._vspec(recvbuf, self.size, True)
        c = self._collective("Alltoall", [u8[a:b].tobytes() for a, b in rng])
        for i, (a, b) in enumerate(rrng):
            d = np.frombuffer(c[i][me], np.uint8)
            if d.size > b - a:
                raise MPIException(ERR_TRUNCATE, "MPI_ERR_TRUNCATE: message truncated")
            r8[a : a + d.size] = d

    Alltoallv = Alltoall

    # communicator construction
    def _new(self, members, tag):
        w = _world()
        ctx = ("sub", self._ctx, tag, tuple(members))
        k = w.new_ctx(ctx, sched.current().rank)
        full = (ctx, k)
        return Intracomm(full, lambda: list(members))

    def Dup(self, info=None):
        if _world() is None:
            return self
        self._collective("Dup", None)
        return self._new(self._ranks(), "dup")

    Clone = Dup

    def Split(self, color=0, key=0):
        if _world() is None:
            return self
        c = self._collective("Split", (color, key))
        if color == UNDEFINED:
            return COMM_NULL
        ranks = self._ranks()
        mem = sorted((c[i][1], i) for i in range(self.size) if c[i][0] == color)
        return self._new([ranks[i] for _, i in mem], "split")

    def Split_type(self, split_type, key=0, info=None):
        w = _world()
        if w is None:
            return NODE_COMM if self is COMM_WORLD else self
        self._collective("Split_type", None)
        ranks = self._ranks()
        node = w.node_of[sched.current().rank]
        return self._new([r for r in ranks if w.node_of[r] == node], "shared")

    def Create(self, group):
        if _world() is None:
            return self
        self._collective("Create", None)
        if sched.current().rank not in group.ranks:
            return COMM_NULL
        return self._new(group.ranks, "create")

    def Create_group(self, group, tag=0):
        if sched.current().rank not in group.ranks:
            return COMM_NULL
        return self._new(group.ranks, "create_group")

    def Abort(self, errorcode=0):
        w = _world()
        if w is None:
            raise HarnessError("MPI Abort outside the simulation")
        w.aborted = (sched.current().rank, errorcode, w.sim.now)
        w.sim.log("MPI_Abort", errorcode)
        if len(self._ranks()) < w.size:
            # only the processes of this communicator are ended
            w.sim.abort("partial_abort", f"rank {sched.current().rank} aborted only ranks {self._ranks()}")
        w.sim.abort("mpi_abort", f"rank {sched.current().rank} called Abort({errorcode})")


class Intracomm(Comm):
    pass


class Intercomm(Comm):
    pass


class _NullComm(Intracomm):
    def __bool__(self):
        return False

    def Get_rank(self):
        raise MPIException(5, "MPI_ERR_COMM: invalid communicator")

    def Get_size(self):
        raise MPIException(5, "MPI_ERR_COMM: invalid communicator")


COMM_NULL = _NullComm("null", lambda: [])


def _world_ranks():
    w = _world()
    return [0] if w is None else list(range(w.size))


def _self_ranks():
    w = _world()
    return [0] if w is None else [sched.current().rank]


def _node_ranks():
    w = _world()
    if w is None:
        return [0]
    node = w.node_of[sched.current().rank]
    return [r for r in range(w.size) if w.node_of[r] == node]


COMM_WORLD = Intracomm("world", _world_ranks)
COMM_SELF = Intracomm("self", _self_ranks)
NODE_COMM = Intracomm("node", _node_ranks)


class World:
    """The ranks, nodes and network of one simulation."""

    def __init__(self, sim, size, node_of=None, cfg=None):
        self.sim = sim
        self.size = size
        self.node_of = node_of or [0] * size
        self.cfg = dict(cfg or {})
        self.aborted = None
        self.misuses = []
        self.msg_fault = None
        self.messages = 0
        self._ctx = {}
        self.net = Network(self)
        sim.world = self
        sim.on_switch.append(self._switch)
        self.module_globals = None

    def count_msg(self, m):
        self.messages += 1

    def new_ctx(self, ctx, rank):
        k = self._ctx.get((ctx, rank), 0)
        self._ctx[(ctx, rank)] = k + 1
        return k

    def misuse(self, kind, msg):
        """The program broke the MPI standard: that is a finding of its own."""
        self.misuses.append((kind, msg))
        self.sim.log("MISUSE", kind)
        self.sim.abort("misuse", f"{kind}: {msg}")

    def _switch(self, st):
        g = MPITOOLS_GLOBALS
        if g is not None:
            if "rank" in g:
                g["rank"] = st.rank
            if "size" in g:
                g["size"] = self.size
            if "rank0" in g:
                g["rank0"] = st.rank == 0

    def leftovers(self):
        """Messages sent and never received, receives posted and never matched."""
        un = sum(len(v) for v in self.net.unexpected.values()) + len(self.net.in_flight)
        po = sum(len(v) for v in self.net.posted.values())
        return un, po


MPITOOLS_GLOBALS = None  # the real globals() of caput.util.mpitools


def get_processor_name():
    w = _world()
    return "node0" if w is None else f"node{w.node_of[sched.current().rank]}"


def install():
    """Make ``import mpi4py`` give this simulation."""
    if "mpi4py" in sys.modules and not getattr(sys.modules["mpi4py"], "__simulated__", False):
        raise HarnessError("real mpi4py already imported")
    pkg = types.ModuleType("mpi4py")
    pkg.__simulated__ = True
    pkg.__version__ = "4.1.2"
    pkg.__path__ = []
    mpi = types.ModuleType("mpi4py.MPI")
    for k, v in list(globals().items()):
        if k.startswith("__") or isinstance(v, types.ModuleType):
            continue
        if k in ("install", "World", "Network", "Message", "MPITOOLS_GLOBALS", "HarnessError"):
            continue
        setattr(mpi, k, v)
    mpi.Exception = MPIException
    mpi.Comm = Comm
    for k, d in _typedict.items():
        if d.name != "NULL":
            setattr(mpi, d.name, d)
    mpi.COMPLEX = _typedict["F"]
    mpi.DOUBLE_COMPLEX = _typedict["D"]
    mpi.INT64_T = _typedict["l"]
    mpi.INT32_T = _typedict["i"]
    mpi.BOOL = _typedict["?"]
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: False
    mpi.Wtime = lambda: (_sim().now if _sim() is not None else 0.0)
    mpi.DATATYPE_NULL = _typedict["e"]
    pkg.MPI = mpi
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mpi
