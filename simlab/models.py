"""Reference models: what numpy says about the whole array, and who owns which part."""

import numpy as np

from .sched import Violation

DTYPES = ["f8", "f4", "i4", "i8", "c16", "c8", "u1", "i2", "?", "S5", "U3", "rec", "M8[s]", "i8"]
PLAIN = ["f8", "f4", "i4", "i8", "c16", "c8", "u1", "i2"]


def dtype_of(name):
    if name == "rec":
        return np.dtype([("a", "f8"), ("b", "i4")])
    return np.dtype(name)


def share(n, size, rank):
    """(number, start, end) of the contiguous share of *rank*."""
    q, r = divmod(n, size)
    num = q + (1 if rank < r else 0)
    start = rank * q + min(rank, r)
    return num, start, start + num


def make(shape, dtype, salt=0):
    """A whole array with (nearly) all different elements, a function of its arguments only."""
    dt = dtype_of(dtype) if isinstance(dtype, str) else dtype
    n = int(np.prod(shape, dtype=np.int64)) if len(shape) else 1
    v = (np.arange(n, dtype=np.int64) * 7919 + 13 + salt * 104729) % 1000003
    if dt.names:
        a = np.zeros(n, dt)
        for k, nm in enumerate(dt.names):
            a[nm] = v + k
    elif dt.kind == "c":
        a = (v * 0.5 + 1j * (v + 3)).astype(dt)
    elif dt.kind == "f":
        a = (v % 2039 if dt.itemsize == 2 else v).astype(dt) * dt.type(0.5)
    elif dt.kind in "iu":
        a = (v % (np.iinfo(dt).max + 1 if dt.itemsize < 8 else 1 << 40)).astype(dt)
    elif dt.kind == "b":
        a = (v % 3 == 0) ^ (np.arange(n) % 5 == 1)
    elif dt.kind == "S":
        a = np.array([b"%d" % x for x in v % 10**min(dt.itemsize, 5)], dtype=dt) if n else np.zeros(0, dt)
    elif dt.kind == "U":
        a = np.array(["%d" % x for x in v % 10 ** min(dt.itemsize // 4, 5)], dtype=dt) if n else np.zeros(0, dt)
    elif dt.kind == "M":
        a = v.astype(dt)
    else:
        raise ValueError(dt)
    return np.ascontiguousarray(a.reshape(shape))


def local_part(g, axis, size, rank):
    _, s, e = share(g.shape[axis], size, rank)
    sl = [slice(None)] * g.ndim
    sl[axis] = slice(s, e)
    return g[tuple(sl)]


def same(a, b, approx=False):
    """Equal values, shape and dtype (NaN equal to NaN)."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if approx and a.dtype.kind in "fc":
        return np.allclose(a, b, rtol=3e-3 if a.dtype.itemsize <= 2 else 1e-4 if a.real.dtype.itemsize <= 4 else 1e-9, atol=0, equal_nan=True)
    if a.dtype.kind in "fcmM":
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def describe_diff(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape}, expected {b.shape}"
    if a.dtype != b.dtype:
        return f"dtype {a.dtype}, expected {b.dtype}"
    try:
        w = np.argwhere(a != b)
        i = tuple(w[0])
        return f"{len(w)} elements differ, first at {tuple(int(x) for x in i)}: {a[i]!r}, expected {b[i]!r}"
    except Exception:  # noqa: BLE001
        return "values differ"


def check_dist(arr, g, axis, size, rank, what, comm=None, approx=False):
    """*arr* is, on this rank, the right share of the whole array *g*."""
    from caput.mpiarray import MPIArray

    if not isinstance(arr, MPIArray):
        raise Violation("wrong-type", f"{what}: rank {rank}/{size} got {type(arr).__name__}, expected a distributed array")
    n, s, e = share(g.shape[axis], size, rank)
    gs = tuple(arr.global_shape)
    if gs != g.shape:
        raise Violation("metadata", f"{what}: rank {rank}/{size} global shape {gs}, expected {g.shape}")
    if arr.axis != axis:
        raise Violation("metadata", f"{what}: rank {rank}/{size} distributed axis {arr.axis}, expected {axis}")
    lshape = tuple(n if i == axis else x for i, x in enumerate(g.shape))
    loff = tuple(s if i == axis else 0 for i in range(g.ndim))
    if tuple(arr.local_shape) != lshape or tuple(arr.shape) != lshape:
        raise Violation("metadata", f"{what}: rank {rank}/{size} local shape {arr.local_shape}/{arr.shape}, expected {lshape}")
    if tuple(arr.local_offset) != loff:
        raise Violation("metadata", f"{what}: rank {rank}/{size} local offset {arr.local_offset}, expected {loff}")
    b = arr.local_bounds
    if (b.start, b.stop) != (s, e):
        raise Violation("metadata", f"{what}: rank {rank}/{size} local bounds {b}, expected {s}:{e}")
    if comm is not None and arr.comm != comm:
        raise Violation("metadata", f"{what}: rank {rank}/{size} communicator changed")
    exp = local_part(g, axis, size, rank)
    loc = arr.local_array
    if type(loc) is not np.ndarray:
        raise Violation("wrong-type", f"{what}: local array is {type(loc).__name__}")
    if not same(loc, exp, approx):
        raise Violation("wrong-data", f"{what}: rank {rank}/{size} {describe_diff(loc, exp)}")


def check_array(a, g, what, rank, approx=False):
    if not isinstance(a, np.ndarray):
        raise Violation("wrong-type", f"{what}: rank {rank} got {type(a).__name__}")
    if not same(a, g, approx):
        raise Violation("wrong-data", f"{what}: rank {rank} {describe_diff(a, g)}")


def gen_len(rng, n):
    """Axis lengths around the number of ranks, zero and one included."""
    return rng.choice([0, 1, 1, 2, 3, n - 1, n, n + 1, 2 * n, 2 * n + 1, 5, 7, rng.randrange(1, 9)])


def gen_shape(rng, n, nmin=1, nmax=4, zero_p=0.05):
    nd = rng.randrange(nmin, nmax + 1)
    shape = []
    for _ in range(nd):
        x = max(gen_len(rng, n), 0)
        if x == 0 and rng.random() > zero_p * 4:
            x = rng.randrange(1, 5)
        shape.append(x)
    while np.prod(shape) > 4000:
        k = max(range(nd), key=lambda i: shape[i])
        shape[k] = max(1, shape[k] // 2)
    return shape


def gen_n(rng, hi=6):
    return rng.choice([1, 2, 2, 3, 3, 4, 4, 5, hi, rng.randrange(1, hi + 2)])
