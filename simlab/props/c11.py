"""C11: call histories of the multithreaded generator under two different worker schedules."""

import os

import numpy as np

from .. import harness
from ..sched import Violation

METHODS = ["random", "random", "standard_normal", "integers", "uniform", "normal", "poisson", "power", "exponential"]


class P(harness.Prop):
    id = "C11"
    title = "Multithreaded random numbers depend only on the seed and thread count"
    rule = (
        "a run = up to 7 calls on 1 to 3 generators shared by 1 or 2 processes, their worker threads interleaved at every "
        "source line of the generator by the seeded scheduler; every array compared bit for bit with the same calls on each "
        "generator alone under the plain schedule, plus coverage, range, freshness and moment checks"
    )
    real = ("caput.algorithms.random", "numpy.random")
    stub = ("thread pool (simulated threads)", "mpi4py")
    quick_runs = 3000
    thorough_runs = 150000

    def load(self):
        from caput.algorithms import random

        self.mod = random

    # -- programs -------------------------------------------------------------
    def gen_call(self, rng, ngen):
        m = rng.choice(METHODS)
        total = rng.choice([0, 1, 7, 999, 1000, 1001, 1003, 1013, 1200, 1500, 2048, rng.randrange(1000, 2500)])
        form = rng.choice(["int", "int", "tuple", "tuple2", "list", "npint", "none"])
        c = {"g": rng.randrange(ngen), "m": m, "total": total, "form": form, "dtype": None, "out": None,
             "pos": rng.randrange(3), "bad": rng.random() < 0.06 and m in ("integers", "uniform", "normal", "poisson", "power"), "omit": rng.random() < 0.15, "arr": m == "normal" and rng.random() < 0.4 and total > 0 and form != "none", "endpoint": None, "p": rng.randrange(4)}
        if m in ("random", "standard_normal"):
            c["dtype"] = rng.choice([None, None, "f8", "f4", "np.f4"])
            c["out"] = rng.choice([None, None, None, "C", "C2", "F", "stride", "None"])
        elif m == "integers":
            c["dtype"] = rng.choice([None, None, "i4", "i8", "u1"])
            c["endpoint"] = rng.choice([None, None, True, False])
        return c

    def generate(self, rng, i):
        ngen = rng.choice([1, 1, 1, 2, 3])
        gens = [{"seed": rng.choice([0, 1, 42, rng.randrange(1 << 40), (1 << 100) + rng.randrange(99)]),
                 "threads": rng.choice([1, 2, 3, 4, 4, 5, 7, 8, 13, 40, "env", "default"]),
                 "bitgen": rng.choice([None, None, None, "PCG64", "MT19937"])} for _ in range(ngen)]
        n = rng.choice([1, 1, 1, 2])
        calls = [self.gen_call(rng, ngen) for _ in range(rng.randrange(1, 8))]
        env = harness.gen_env(rng)
        fault = rng.choice([None] * 8 + ["start", "worker"])
        return {"n": n, "gens": gens, "calls": calls, "env": env, "trace": rng.random() < 0.7, "fault": fault,
                "omp": rng.choice([None, "1", "3", "6"])}

    def directed(self):
        env = dict(harness.QUIET)
        base = {"g": 0, "m": "random", "total": 1500, "form": "int", "dtype": None, "out": None, "pos": 1, "bad": False,
                "omit": False, "endpoint": None, "p": 0, "arr": False}
        return [{"n": 1, "gens": [{"seed": 5, "threads": 4, "bitgen": None}], "env": env, "trace": False, "fault": None, "omp": None,
                 "calls": [dict(base, out="F"), dict(base, out="None"), dict(base, m="integers", endpoint=True, pos=2), dict(base, out="C", pos=2)]}]

    # -- one call ---------------------------------------------------------------
    def make_args(self, c):
        """-> args, kwargs, out array, shape, dtype, parameters; what numpy's documented signature says."""
        m, total = c["m"], c["total"]
        par = {}
        if m == "integers":
            lo, hi = [(0, 10), (-3, 4), (0, 200), (100, 120)][c["p"]]
            if c["dtype"] == "u1" and lo < 0:
                lo, hi = 0, 7
            if c["bad"]:
                lo, hi = 5, 1
            par = {"low": lo, "high": hi}
        elif m == "uniform":
            par = {"low": [0.0, -2.5, 3, 10.0][c["p"]], "high": [1.0, 2.5, 4, 10.5][c["p"]]}
            if c["bad"]:
                par["high"] = np.inf
        elif m == "normal":
            par = {"loc": [0.0, 5.0, -20, 1.5][c["p"]], "scale": [1.0, 0.1, 3, 2.0][c["p"]]}
            if c["bad"]:
                par["scale"] = -1.0
        elif m == "poisson":
            par = {"lam": -1.0 if c["bad"] else [3.0, 10, 100.0, 0.5][c["p"]]}
        elif m == "power":
            par = {"a": -1.0 if c["bad"] else [2.0, 5, 1.0, 0.5][c["p"]]}
        elif m == "exponential":
            par = {"scale": [1.0, 2.0, 5.0, 0.5][c["p"]]}
        if c["arr"]:
            par["loc"] = None  # an array, set below
        defaults = m in ("uniform", "normal", "poisson", "exponential") and c["omit"] and not c["bad"] and not c["arr"]
        shape = {"int": (total,), "npint": (total,), "tuple": (total,), "none": None}.get(c["form"])
        size = {"int": total, "npint": np.int64(total), "tuple": (total,), "none": None}.get(c["form"])
        if c["form"] in ("tuple2", "list"):
            d = next((k for k in (7, 5, 4, 3, 2) if total % k == 0), 1)
            shape = (d, total // d)
            size = list(shape) if c["form"] == "list" else shape
        if c["arr"]:
            par["loc"] = (np.arange(shape[-1]) % 7) * 1000.0
        dt = {None: None, "np.f4": np.float32}.get(c["dtype"], c["dtype"])
        out = None
        outkw = {}
        if c["out"] == "None":
            outkw = {"out": None}
        elif c["out"] is not None and shape is not None:
            odt = np.dtype(dt or "f8")
            if c["out"] == "F":
                out = np.full(shape, 777.0, dtype=odt, order="F")
            elif c["out"] == "stride":
                out = np.full(tuple(2 * s for s in shape), 777.0, dtype=odt)[tuple(slice(None, None, 2) for _ in shape)]
            else:
                out = np.full(shape, 777.0, dtype=odt)
            outkw = {"out": out}
            if c["out"] != "C2":
                size = None
        if defaults:
            par = {}
        args, kwargs = [], {}
        pos = c["pos"]
        if pos == 0 or defaults:
            kwargs.update(par)
        else:
            args += list(par.values())
        if pos == 2 and not defaults and len(args) == len(par):
            args.append(size)
            if m in ("random", "standard_normal", "integers") and (dt is not None or outkw or c["endpoint"] is not None):
                args.append(dt or ("f8" if m != "integers" else "i8"))
                if outkw:
                    args.append(outkw["out"])
                elif c["endpoint"] is not None:
                    args.append(c["endpoint"])
        else:
            if size is not None or c["form"] == "none":
                kwargs["size"] = size
            if dt is not None:
                kwargs["dtype"] = dt
            kwargs.update(outkw)
            if c["endpoint"] is not None:
                kwargs["endpoint"] = c["endpoint"]
        if not par and defaults:
            par = {"uniform": {"low": 0.0, "high": 1.0}, "normal": {"loc": 0.0, "scale": 1.0}, "poisson": {"lam": 1.0}, "exponential": {"scale": 1.0}}[m]
        return args, kwargs, out, shape, dt, par

    def do_call(self, gens, c):
        """-> ("ok", array) or ("err",)."""
        args, kwargs, out, shape, dt, par = self.make_args(c)
        try:
            r = getattr(gens[c["g"]], c["m"])(*args, **kwargs)
        except Exception as e:  # noqa: BLE001
            return ("err", type(e).__name__, str(e)[:100])
        if out is not None and r is not out:
            raise Violation("wrong-data", f"{c}: the array passed as out was not the one returned")
        return ("ok", np.array(r, copy=True))

    def check_one(self, c, res, what):
        args, kwargs, out, shape, dt, par = self.make_args(c)
        m = c["m"]
        if res[0] == "err":
            if c["bad"] or (c["out"] == "stride" and out is not None and not (out.flags.c_contiguous or out.flags.f_contiguous)):
                return
            raise Violation("exception", f"{what} raised {res[1]}: {res[2]}")
        a = res[1]
        exp_shape = () if shape is None else tuple(shape)
        if a.shape != exp_shape:
            raise Violation("wrong-shape", f"{what} gave shape {a.shape}, expected {exp_shape}")
        if c["bad"]:
            if a.size:
                raise Violation("missing-error", f"{what} returned an array for invalid parameters")
            return
        # the poisson and integer dtypes below and above the parallel threshold differ in the shipped code
        if shape is not None and m in ("random", "standard_normal", "integers") and a.dtype != np.dtype(dt or ("i8" if m == "integers" else "f8")):
            raise Violation("wrong-dtype", f"{what} gave dtype {a.dtype}")
        if not a.size:
            return
        if c["arr"]:
            a = a - par["loc"]  # broadcasting parameters: the residuals are centred
            par["loc"] = 0.0
        x = a.astype(np.float64).ravel()
        lo, hi = -np.inf, np.inf
        mean = std = None
        if m == "random":
            lo, hi, mean, std = 0, 1, 0.5, 12**-0.5
        elif m == "uniform":
            lo, hi = par["low"], par["high"]
            mean, std = (lo + hi) / 2, (hi - lo) * 12**-0.5
        elif m == "integers":
            lo = par["low"]
            hi = par["high"] - (0 if c["endpoint"] else 1)
            k = hi - lo + 1
            mean, std = (lo + hi) / 2, ((k * k - 1) / 12) ** 0.5
            if a.size >= 999 and k <= 20 and set(np.unique(x)) != set(range(lo, hi + 1)):
                raise Violation("wrong-distribution", f"{what}: values {sorted(set(x))}, expected all of {lo}..{hi}")
        elif m == "normal":
            mean, std = par["loc"], par["scale"]
        elif m == "standard_normal":
            mean, std = 0, 1
        elif m == "poisson":
            lo, mean, std = 0, par["lam"], par["lam"] ** 0.5
            if not np.array_equal(x, np.round(x)):
                raise Violation("wrong-distribution", f"{what}: poisson values are not integers")
        elif m == "power":
            al = par["a"]
            lo, hi, mean = 0, 1, al / (al + 1)
            std = (al / ((al + 2) * (al + 1) ** 2)) ** 0.5
        elif m == "exponential":
            lo, mean, std = 0, par["scale"], par["scale"]
        if x.min() < lo or x.max() > hi:
            raise Violation("unfilled", f"{what}: values in [{x.min()}, {x.max()}], expected [{lo}, {hi}] ({(x == 777).sum()} not filled)")
        if a.size >= 999:
            if abs(x.mean() - mean) > 7.5 * std / a.size**0.5:
                raise Violation("wrong-distribution", f"{what}: mean {x.mean()}, expected {mean}")
            if not 0.6 * std < x.std() < 1.5 * std:
                raise Violation("wrong-distribution", f"{what}: std {x.std()}, expected {std}")
            # any stretch left unfilled shows as a run of equal elements
            if m not in ("integers", "poisson"):
                run = (np.diff(x) == 0).sum()
                if run > 3:
                    raise Violation("unfilled", f"{what}: {run} neighbouring elements are equal")

    def run_world(self, program, ctx, env, only=None):
        """Results per process of the calls (of one generator only, or all)."""
        mod = self.mod
        res = {}
        gspecs = program["gens"]

        def prepare(sim, world):
            f = program["fault"] if only is None else None
            sim.threads_cfg = {
                "trace": "caput/algorithms" if program["trace"] and only is None else None,
                "start_p": 0.03 if f == "start" else 0, "fail_p": 0.05 if f == "worker" else 0,
            }

        def rank_main(wr):
            gens = []
            for k, g in enumerate(gspecs):
                if only is not None and k != only[1]:
                    gens.append(None)
                    continue
                kw = {}
                if g["threads"] not in ("env", "default"):
                    kw["threads"] = g["threads"]
                if g["bitgen"]:
                    kw["bitgen"] = getattr(np.random, g["bitgen"])
                gens.append(mod.MultithreadedRNG(g["seed"] + wr, **kw))
            mine = res.setdefault(wr, {})
            for q, c in enumerate(program["calls"]):
                if gens[c["g"]] is None:
                    continue
                mine[q] = self.do_call(gens, c)
            return True

        ranks = program["n"]
        if only is None:
            run = ctx.simulate(ranks, rank_main, env, prepare=prepare)
        else:
            run = ctx.simulate(1, lambda r: rank_main(only[0]), env, prepare=prepare)
        if run.outcome != "done" or any(run.real_excs()):
            ctx.require_clean(run, "random calls:")
        return res, run

    def execute(self, program, ctx):
        old = os.environ.get("OMP_NUM_THREADS")
        try:
            if program["omp"] is None:
                os.environ.pop("OMP_NUM_THREADS", None)
            else:
                os.environ["OMP_NUM_THREADS"] = program["omp"]
            self.judge(program, ctx)
        finally:
            if old is None:
                os.environ.pop("OMP_NUM_THREADS", None)
            else:
                os.environ["OMP_NUM_THREADS"] = old

    def judge(self, program, ctx):
        res, run = self.run_world(program, ctx, program["env"])
        faulted = bool(run.sim.faults.get("thread_start_failure") or run.sim.faults.get("worker_failure"))
        calls = program["calls"]
        if faulted:
            # some call must have failed, and no call may return an array that is not filled
            errs = sum(1 for d in res.values() for q, r in d.items() if r[0] == "err")
            if not errs:
                raise Violation("missing-error", f"{program['fault']} failure in a worker thread and every call returned normally")
        seen = {}
        owner = {}  # the first generator with a given seed
        for wr, d in res.items():
            for q, r in d.items():
                what = f"call {q} {calls[q]} of process {wr} (gen {program['gens'][calls[q]['g']]})"
                if faulted and r[0] == "err":
                    continue
                self.check_one(calls[q], r, what)
                k = calls[q]["g"]
                if r[0] == "ok" and owner.setdefault(program["gens"][k]["seed"] + wr, (wr, k)) == (wr, k):
                    self.fresh(r[1], calls[q], seen, what)
        if faulted:
            ctx.probe("failed_call_reported")
            return
        for wr in res:
            for k in sorted({c["g"] for c in calls}):
                ref, _ = self.run_world(program, ctx, harness.QUIET, only=(wr, k))
                for q, r in ref[wr].items():
                    got = res[wr][q]
                    if r[0] != got[0] or (r[0] == "ok" and not (r[1].dtype == got[1].dtype and np.array_equal(r[1], got[1]))):
                        what = f"call {q} {calls[q]} (gen {program['gens'][k]})"
                        nd = int((r[1] != got[1]).sum()) if r[0] == got[0] == "ok" and r[1].shape == got[1].shape else "all"
                        raise Violation("schedule-dependent", f"{what}: {nd} elements differ between two schedules of the worker threads")
        for c in calls:
            ctx.probe("m_" + c["m"])

    def fresh(self, a, c, seen, what):
        """No stretch of 8 consecutive values of any call appears in another place of the history."""
        if a.size < 16 or c["m"] in ("poisson",):
            return
        if c["m"] == "integers" and c["p"] != 2:
            return
        x = np.ascontiguousarray(a).ravel()
        if c["m"] == "integers":
            x = x - 0
        b = x.astype(np.float64)
        key = (c["m"], c["p"] if c["m"] not in ("random", "standard_normal") else 0, str(a.dtype), c["omit"], c["endpoint"], c["arr"])
        tab = seen.setdefault(key, {})
        for i in range(0, len(b) - 8):
            w = b[i:i + 8].tobytes() if i % 4 == 0 else None
            if w is not None:
                if w in tab:
                    raise Violation("repeated-stream", f"{what}: elements from {i} repeat {tab[w]}")
        for i in range(0, len(b) - 8):
            tab[b[i:i + 8].tobytes()] = f"{what[:40]} elements from {i}"

    def describe(self, program):
        return {k: program[k] for k in ("n", "gens", "calls", "fault", "omp", "trace")}

    def shrink(self, program):
        calls = program["calls"]
        for i in range(len(calls)):
            if len(calls) > 1:
                yield dict(program, calls=calls[:i] + calls[i + 1:])
        yield from super().shrink(program)
        for i, g in enumerate(program["gens"]):
            if g["threads"] != 2:
                yield dict(program, gens=program["gens"][:i] + [dict(g, threads=2)] + program["gens"][i + 1:])
        if program["trace"]:
            yield dict(program, trace=False)


PROP = P()
