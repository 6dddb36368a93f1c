"""Import caput from /repo with the simulation seams in place.

Order matters: the clock and mpi4py are replaced before any caput module is imported.
caput's own sources are executed unmodified except that set displays, set comprehensions
and the names ``set``/``frozenset`` give sets whose iteration order depends on the simulated
rank, as it does between real MPI processes with hash randomisation.
"""

import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import time

from . import fakempi, fs, procs, sched, threads

REPO = os.environ.get("SIMLAB_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# -- per-rank hash order -----------------------------------------------------
class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set)


class SimSet(set, metaclass=_SetMeta):
    """A set whose iteration order differs between simulated ranks."""

    def __iter__(self):
        items = list(set.__iter__(self))
        sim = sched.active()
        if sim is None or len(items) < 2 or not all(isinstance(x, (str, bytes, tuple)) for x in items):
            return iter(items)
        salt = getattr(sim, "hash_salt", None)
        if salt is None:
            return iter(sorted(items, key=repr))
        r = sched.current().rank
        sim.probe("rank_ordered_set")
        return iter(sorted(items, key=lambda x: hashlib.blake2b(f"{salt}/{r}/{x!r}".encode(), digest_size=8).digest()))

    def pop(self):
        x = next(iter(self))
        self.remove(x)
        return x

    def _w(name):  # noqa: N805
        f = getattr(set, name)

        def op(self, *a):
            r = f(self, *a)
            return SimSet(r) if type(r) is set else r

        op.__name__ = name
        return op

    for _n in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__",
               "__rxor__", "union", "intersection", "difference", "symmetric_difference", "copy"):
        locals()[_n] = _w(_n)
    del _n

    def __reduce__(self):
        return (set, (list(set.__iter__(self)),))


def simhash(x):
    """``hash`` as caput's modules see it: strings hash differently in every process of every run."""
    sim = sched.active()
    if sim is None or not isinstance(x, (str, bytes)):
        return hash(x)
    key = f"{getattr(sim, 'hash_salt', 0)}/{getattr(sim, 'serial', 0)}/{sched.current().rank}/{x!r}"
    return int.from_bytes(hashlib.blake2b(key.encode(), digest_size=8).digest(), "big", signed=True)


class _SetRewriter(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(ast.Name("__simset__", ast.Load()), [ast.List(node.elts, ast.Load())], []), node
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(ast.Name("__simset__", ast.Load()), [ast.ListComp(node.elt, node.generators)], []), node
        )


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(_SetRewriter().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        # never use or write cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["__simset__"] = SimSet
        module.__dict__["set"] = SimSet
        module.__dict__["hash"] = simhash
        super().exec_module(module)
        threads.adopt(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "caput" and not name.startswith("caput."):
            return None
        rel = os.path.join(REPO, *name.split("."))
        init = os.path.join(rel, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init), submodule_search_locations=[rel]
            )
        if os.path.isfile(rel + ".py"):
            return importlib.util.spec_from_file_location(name, rel + ".py", loader=_Loader(name, rel + ".py"))
        if os.path.isdir(rel):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [rel]
            return spec
        if os.path.isfile(rel + ".pyx"):
            return importlib.machinery.ModuleSpec(name, _StubLoader())
        return importlib.machinery.PathFinder.find_spec(name, path)


# -- compiled extensions -------------------------------------------------------
class _StubLoader(importlib.abc.Loader):
    """Numerical kernels (Cython) are stubbed: no simulated property depends on their values."""

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__

        def missing(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)

            def kernel(*a, **k):
                raise sched.HarnessError(f"stubbed kernel {name}.{attr} called")

            kernel.__name__ = attr
            return kernel

        module.__getattr__ = missing


# -- the clock -----------------------------------------------------------------
EPOCH = 1_700_000_000.0
_real = {}


def _patch_time():
    for n in ("sleep", "time", "monotonic", "perf_counter"):
        _real[n] = getattr(time, n)

    def sleep(d):
        sim = sched.active()
        if sim is None:
            return _real["sleep"](d)
        return sim.sleep(d)

    def _clock(base, name):
        def f():
            sim = sched.active()
            if sim is None:
                return _real[name]()
            skew = getattr(sim, "clock_skew", None)
            s = skew.get(sched.current().rank, 0.0) if (skew and name == "time") else 0.0
            return base + sim.now + s

        return f

    time.sleep = sleep
    time.time = _clock(EPOCH, "time")
    time.monotonic = _clock(1000.0, "monotonic")
    time.perf_counter = _clock(1000.0, "perf_counter")
    for n in ("time", "monotonic", "perf_counter"):
        _real[n + "_ns"] = getattr(time, n + "_ns")

        def ns(n=n):
            return _real[n + "_ns"]() if sched.active() is None else int(round(getattr(time, n)() * 1e9))

        setattr(time, n + "_ns", ns)


def real_time():
    return _real.get("time", time.time)()


def real_monotonic():
    return _real.get("monotonic", time.monotonic)()


def _patch_empty():
    """Uninitialised memory has a fixed, conspicuous content inside a simulation."""
    import numpy as np

    r_empty, r_empty_like = np.empty, np.empty_like

    def poison(a):
        if sched.active() is not None and isinstance(a, np.ndarray) and a.size:
            k = a.dtype.kind
            if k in "fc":
                np.ndarray.fill(a, 1.25e77 if a.dtype.itemsize > 4 and a.dtype.char not in "F" else 1.25e30 if a.dtype.itemsize >= 4 else 123.0)
            elif k in "iu":
                np.ndarray.fill(a, 101)
            elif k == "b":
                np.ndarray.fill(a, True)
        return a

    def empty(*a, **k):
        return poison(r_empty(*a, **k))

    def empty_like(*a, **k):
        return poison(r_empty_like(*a, **k))

    np.empty = empty
    np.empty_like = empty_like


_done = False


def bootstrap():
    """Install every seam and import the caput package."""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    _patch_time()
    fakempi.install()
    fs.install()
    threads.install()
    procs.install()
    sys.meta_path.insert(0, _Finder())
    for m in [m for m in sys.modules if m == "caput" or m.startswith("caput.")]:
        raise sched.HarnessError(f"{m} imported before the seams")
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import caput  # noqa: F401
    import caput.util.mpitools as mt

    g = getattr(mt, "self_module", None)
    fakempi.MPITOOLS_GLOBALS = (g or mt).__dict__
    import caput.mpiarray  # noqa: F401
    import caput.memdata  # noqa: F401
    import caput.containers  # noqa: F401

    _patch_empty()
