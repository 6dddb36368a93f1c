"""C06: files written under a lock file are published all-or-nothing."""

import os

import numpy as np

from .. import fs as F
from .. import harness
from ..sched import Violation


class WriterError(Exception):
    pass


class P(harness.Prop):
    id = "C06"
    title = "lock file protocol"
    rule = (
        "each run: lock_file or GroupIOMixin.write_output (HDF5/zarr) on 1-4 ranks, old file present or not, leftovers of an "
        "earlier crash or not, writer exceptions before/during/after creating the file, injected I/O errors and crashes at any "
        "filesystem operation; invariants checked after every filesystem operation, and on the snapshot left by a crash"
    )
    real = ("caput.memdata.lock_file", "caput.pipeline.extensions GroupIOMixin.write_output", "caput.memdata file writers", "h5py", "zarr")
    stub = ("mpi4py (simulated)", "filesystem calls (simulated faults over real scratch files)", "clock")
    quick_runs = 20000
    thorough_runs = 120000

    def load(self):
        import caput.memdata as md
        from caput.pipeline.extensions import _extensions as ext
        from caput.util import mpitools

        self.md = md
        self.ext = ext
        self.tools = mpitools

    def directed(self):
        base = {"n": 1, "comm": "none", "mode": "plain", "fmt": "h5", "dir": "", "old": False, "stale": 0, "sizes": [5, 3],
                "raise": None, "preserve": False, "crash_p": 0.0, "err_p": 0.0, "env": dict(harness.QUIET), "restart": True}
        return [
            dict(base, **{"raise": "before"}),
            dict(base, **{"raise": "during", "mode": "plain", "tmpdir": True}),
            dict(base, mode="group"),
            dict(base, mode="group", dir="sub"),
            dict(base, mode="group", fmt="zarr", n=2),
        ]

    def generate(self, rng, i):
        mode = rng.choice(["plain", "plain", "plain", "group"])
        n = rng.choice([1, 1, 2, 3, 4])
        p = {
            "n": n,
            "comm": rng.choice(["none", "world"]),
            "mode": mode,
            "fmt": rng.choice(["h5", "zarr"]),
            "dir": rng.choice(["", "", "sub", "abs", "new/deep"]),
            "old": rng.random() < 0.6,
            "stale": rng.choice([0, 0, 0, 1, 2, 3]),  # bit 0: temporary file, bit 1: lock
            "sizes": [rng.randrange(0, 9) for _ in range(rng.randrange(1, 5))],
            "raise": rng.choice([None, None, None, "before", "during", "after"]),
            "preserve": rng.random() < 0.3,
            "tmpdir": rng.random() < 0.2,
            "crash_p": 0.0,
            "err_p": 0.0,
            "restart": True,
            "env": harness.gen_env(rng),
        }
        k = rng.random()
        if k < 0.45:
            p["crash_p"] = rng.choice([0.02, 0.1, 0.3]) if mode == "plain" else rng.choice([0.005, 0.02, 0.06])
        elif k < 0.8:
            p["err_p"] = rng.choice([0.05, 0.2, 0.5]) if mode == "plain" else rng.choice([0.01, 0.05, 0.2])
        return p

    # -- names -------------------------------------------------------------
    def names(self, program, root):
        ext = {"plain": ".dat", "group": "." + program["fmt"]}[program["mode"]]
        d = program["dir"]
        base = {"": "", "sub": "sub/", "abs": root + "/sub/", "new/deep": "new/deep/"}[d]
        k = program["n"] if program["mode"] == "plain" and program["comm"] == "none" else 1
        out = []
        for r in range(k):
            f = f"{base}out{r}{ext}"
            out.append((f, os.path.join(os.path.dirname(f), "." + os.path.basename(f)),
                        os.path.join(os.path.dirname(f), "." + os.path.basename(f) + ".lock")))
        return out

    def execute(self, program, ctx):
        root = ctx.dir()
        cwd = os.getcwd()
        os.chdir(root)
        try:
            self._execute(program, ctx, root)
        finally:
            os.chdir(cwd)

    OLD = "old contents"

    def new_text(self, program, r):
        return "".join(f"<{r}:{j}:{'x' * s}>" for j, s in enumerate(program["sizes"]))

    def _execute(self, program, ctx, root):
        names = self.names(program, root)
        group = program["mode"] == "group"
        isdir = (group and program["fmt"] == "zarr") or (not group and program.get("tmpdir"))
        for d in {os.path.dirname(f) for f, _, _ in names}:
            if d and not (group and d == "new/deep"):
                os.makedirs(d, exist_ok=True)
        for f, t, lk in names:
            if program["old"] and not isdir and os.path.isdir(os.path.dirname(f) or "."):
                if group:
                    self.write_old(f)
                else:
                    open(f, "w").write(self.OLD)
            if program["stale"] & 1 and os.path.isdir(os.path.dirname(t) or "."):
                if isdir:
                    os.makedirs(os.path.join(t, "junk"))
                elif not group:
                    open(t, "w").write("stale partial conte")
            if program["stale"] & 2 and os.path.isdir(os.path.dirname(t) or "."):
                open(lk, "w").write("")
        have_old = program["old"] and not isdir
        snap = root + ".snap"
        for attempt in range(2):
            quiet = attempt == 1
            st = self.simulate(program, ctx, root, names, quiet, have_old, isdir, snap)
            if st in ("done", "failed"):
                break
            # after the crash only what was on disk is left: check it, then start again
            os.chdir("/")
            F.R["rmtree"](root)
            os.rename(snap, root)
            os.chdir(root)
            have_old = [self.state_of(program, f, r) for r, (f, _, _) in enumerate(names)]
            ctx.probe("restart")
            if isdir and "new" in have_old:
                break  # a directory cannot be renamed over the one already published

    def write_old(self, f):
        import h5py

        with h5py.File(f, "w") as fh:
            fh.create_dataset("old", data=np.arange(3))

    # -- what the final name holds ----------------------------------------------
    def state_of(self, program, f, r):
        """'absent' | 'old' | 'new' | a description of partial contents."""
        if not F.R["exists"](f):
            return "absent"
        if program["mode"] == "plain":
            if F.R["isdir"](f):
                try:
                    with F.R["open"](os.path.join(f, "part")) as fh:
                        s = fh.read()
                except OSError:
                    return "partial: directory without its content"
            else:
                with F.R["open"](f) as fh:
                    s = fh.read()
            if s == self.OLD:
                return "old"
            if s == self.new_text(program, r):
                return "new"
            return f"partial: {s[:60]!r}, expected {self.new_text(program, r)[:60]!r}"
        with F.quiet():
            return self.group_state(program, f)

    def group_data(self, program):
        N = 3 * len(program["sizes"]) + 1
        return {"dist": np.arange(N * 2, dtype="f8").reshape(N, 2) + 0.5, "com": np.arange(5) * 7, "g/inner": np.arange(N) * 3}

    def group_state(self, program, f):
        import h5py
        import zarr

        exp = self.group_data(program)
        try:
            if program["fmt"] == "h5":
                with h5py.File(f, "r") as fh:
                    if "old" in fh:
                        return "old"
                    for k, v in exp.items():
                        if k not in fh or not np.array_equal(fh[k][()], v):
                            return f"partial: dataset {k}"
                    if fh.attrs.get("tag") != "hello":
                        return "partial: attribute tag"
            else:
                fh = zarr.open_group(f, mode="r")
                for k, v in exp.items():
                    if k not in fh or not np.array_equal(fh[k][...], v):
                        return f"partial: dataset {k}"
                if fh.attrs.get("tag") != "hello":
                    return "partial: attribute tag"
        except Exception as e:  # noqa: BLE001
            return f"partial: unreadable ({type(e).__name__}: {str(e)[:80]})"
        return "new"

    # -- one simulation -----------------------------------------------------------
    def simulate(self, program, ctx, root, names, quiet, have_old, isdir, snap):
        n = program["n"]
        group = program["mode"] == "group"
        raise_at = None if quiet else program["raise"]
        absn = [tuple(os.path.abspath(x) for x in t) for t in names]
        # what each final name may hold before it is published
        before = [self.state_of(program, f, r) for r, (f, _, _) in enumerate(absn)]
        for r, b in enumerate(before):
            if b.startswith("partial"):
                raise Violation("partial-after-crash", f"{names[r][0]} holds {b}")
        cfg = {"root": root, "snap": snap, "stat_step": True}
        if not quiet:
            cfg.update(crash_p=program["crash_p"], err_p=program["err_p"], err_max=1)
        writing = [0] * len(names)  # ranks inside the body, per file
        seen = [None] * len(names)
        passed = {}

        def watch(name, p):
            for r, (f, t, lk) in enumerate(absn):
                try:
                    ino = os.stat(f).st_ino
                    ino = (ino, os.stat(f).st_mtime_ns, os.stat(f).st_size)
                except OSError:
                    ino = None
                if ino != seen[r] or ino is None:
                    s = self.state_of(program, f, r)
                    if s not in (before[r], "new"):
                        raise Violation("partial-visible", f"after {name} {os.path.basename(p)}: {names[r][0]} holds {s}")
                    if before[r] != "new" and s == "new" and writing[r]:
                        raise Violation("published-early", f"{names[r][0]} is published while it is still being written")
                    seen[r] = ino
                touches_tmp = p == t or p.startswith(t + "/")
                if touches_tmp and writing[r] and name in ("create", "write", "close", "h5open-w", "h5open-r+", "h5open-a", "h5write", "mkdir", "makedirs", "replace"):
                    if not F.R["exists"](lk):
                        raise Violation("no-lock", f"{name} on the temporary file of {names[r][0]} while its lock file does not exist")
                if name in ("rename", "replace", "renames") and p in (t, f) and not F.R["exists"](lk):
                    raise Violation("no-lock", f"{names[r][0]} is about to be published while its lock file does not exist")
                if (p == f or p.startswith(f + "/")) and name in ("create", "write", "h5open-w", "h5open-r+", "h5open-a", "h5write"):
                    raise Violation("direct-write", f"{name} directly on {names[r][0]}")

        def prepare(sim, world):
            F.attach(cfg)(sim, world)
            sim.fs.watch.append(watch)

        lock_file = self.md.lock_file
        MPI = self.tools.MPI
        outcome = {}

        def plain(wr):
            comm = MPI.COMM_WORLD if program["comm"] == "world" else None
            r = wr if comm is None else 0
            f, t, lk = names[r]
            lead = comm is None or wr == 0
            try:
                with lock_file(f, preserve=program["preserve"], comm=comm) as tmp:
                    if os.path.normpath(tmp) == os.path.normpath(f):
                        raise Violation("direct-write", f"lock_file({f!r}) hands out the final name")
                    writing[r] += lead
                    passed[wr] = "body"
                    try:
                        if raise_at == "before":
                            raise WriterError("before")
                        if lead:
                            path = tmp
                            if program.get("tmpdir"):
                                os.makedirs(tmp, exist_ok=True)
                                path = os.path.join(tmp, "part")
                            with open(path, "w") as fh:
                                for j, s in enumerate(program["sizes"]):
                                    fh.write(f"<{r}:{j}:{'x' * s}>")
                                    if raise_at == "during":
                                        raise WriterError("during")
                        if raise_at in ("after", "during"):
                            raise WriterError("after")
                        if comm is not None:
                            comm.Barrier()
                    finally:
                        writing[r] -= lead
                passed[wr] = "left"
            except (WriterError, OSError) as e:
                outcome[wr] = e
                return
            outcome[wr] = None

        def grp(wr):
            MemGroup = self.md.MemGroup
            data = self.group_data(program)
            g = MemGroup(distributed=True, comm=MPI.COMM_WORLD)
            from caput.mpiarray import MPIArray
            from .. import models as M

            d = data["dist"]
            g.create_dataset("dist", data=MPIArray.wrap(M.local_part(d, 0, n, wr).copy(), 0, comm=MPI.COMM_WORLD), distributed=True)
            g.create_dataset("com", data=data["com"].copy())
            sub = g.create_group("g")
            sub.create_dataset("inner", data=MPIArray.wrap(M.local_part(data["g/inner"], 0, n, wr).copy(), 0, comm=MPI.COMM_WORLD), distributed=True)
            g.attrs["tag"] = "hello"
            f = names[0][0]
            real_to_file = g.to_file

            def to_file(*a, **k):
                writing[0] += wr == 0
                try:
                    real_to_file(*a, **k)
                    if raise_at is not None:
                        raise WriterError(raise_at)
                finally:
                    writing[0] -= wr == 0

            g.to_file = to_file
            try:
                self.ext.GroupIOMixin.write_output(f, g)
            except Violation:
                raise
            except Exception as e:
                outcome[wr] = e
                return
            outcome[wr] = None

        run = ctx.simulate(n, grp if group else plain, program["env"], prepare=prepare, finish=F.detach, max_steps=12000)
        fs = run.sim.fs
        ctx.probe("outcome_" + run.outcome)
        for i, e in enumerate(run.real_excs()):
            if e is not None:
                raise Violation("exception", f"rank {i} got {type(e).__name__}: {str(e)[:200]} (the writer raised {raise_at})")
        if run.outcome == "crash":
            for r, (f, t, lk) in enumerate(absn):
                sf = os.path.join(snap, os.path.relpath(f, root))
                s = self.state_of(program, sf, r)
                if s not in (before[r], "new"):
                    raise Violation("partial-after-crash", f"after a crash {names[r][0]} holds {s} (before: {before[r]})")
                if writing[r] and F.R["exists"](os.path.join(snap, os.path.relpath(t, root))) and not F.R["exists"](
                        os.path.join(snap, os.path.relpath(lk, root))):
                    raise Violation("no-lock", f"after a crash the partial {t} is left without its lock file")
            return "crash"
        if run.outcome not in ("done", "deadlock", "budget"):
            ctx.require_clean(run)
        if run.outcome != "done" and not fs.errors:
            ctx.require_clean(run)
        injected = fs.errors
        if injected:
            ctx.probe("injected_" + injected[0][0])
        for r, (f, t, lk) in enumerate(absn):
            s = self.state_of(program, f, r)
            who = [wr for wr in range(n) if (program["comm"] == "none" and not group and wr == r) or (program["comm"] != "none" or group)]
            lead = who[0]
            if s not in (before[r], "new"):
                raise Violation("partial-visible", f"{names[r][0]} holds {s} at the end")
            if injected:
                rels = [os.path.relpath(x, root) for x in (f, t, lk)]
                mine = [e for e in injected if group or any(e[1] == x or e[1].startswith(x + "/") for x in rels)]
                if not mine and s != ("new" if raise_at is None else before[r]):
                    raise Violation("lost", f"{names[r][0]} holds {s} although nothing failed for it")
                if not mine:
                    continue
                if run.outcome == "done" and all(outcome.get(w) is None for w in who):
                    # only fine if the operation was repeated successfully (zarr does so)
                    if s == "new" and not F.R["exists"](t) and not F.R["exists"](lk):
                        ctx.probe("error_recovered")
                        continue
                    raise Violation("swallowed", f"the I/O error {injected} was swallowed: every caller believes {names[r][0]} is published ({s})")
                name, rel, _ = injected[0]
                tmp_err = rel == os.path.relpath(t, root) or rel.startswith(os.path.relpath(t, root) + "/")
                in_body = (not group) and tmp_err and name in ("create", "write", "close", "makedirs")
                if in_body or raise_at is not None:
                    if s != before[r]:
                        raise Violation("published-failed", f"{names[r][0]} was published ({s}) although writing it failed ({injected})")
                if in_body and raise_at is None:
                    self.check_clean(program, names[r], r, t, lk, f"the writer failed with {injected[0]}", lead_exc=outcome.get(lead))
                continue
            if raise_at is None:
                if s != "new":
                    raise Violation("not-published", f"{names[r][0]} holds {s} after a successful write")
                for x, w in ((t, "temporary file"), (lk, "lock file")):
                    if F.R["exists"](x):
                        raise Violation("leftover", f"{w} {os.path.basename(x)} remains after a successful write")
                for w in who:
                    if outcome.get(w) is not None:
                        raise Violation("exception", f"rank {w} got {outcome[w]!r} in a successful write")
            else:
                for w in who:
                    e = outcome.get(w)
                    if not isinstance(e, WriterError):
                        raise Violation("wrong-exception", f"rank {w}: the writer raised WriterError, its caller got {e!r}")
                if s != before[r]:
                    raise Violation("published-failed", f"{names[r][0]} holds {s} although the writer raised ({raise_at})")
                self.check_clean(program, names[r], r, t, lk, f"the writer raised ({raise_at})", lead_exc=outcome.get(lead))
        return "done" if run.outcome == "done" else "failed"

    def check_clean(self, program, nm, r, t, lk, why, lead_exc=None):
        if F.R["exists"](lk):
            raise Violation("leftover", f"lock file of {nm[0]} remains after {why}")
        keep = program["preserve"] and program["mode"] == "plain"
        if F.R["exists"](t) and not keep:
            raise Violation("leftover", f"temporary file of {nm[0]} remains after {why}")
        if keep and not F.R["exists"](t) and program["raise"] in ("during", "after"):
            raise Violation("not-preserved", f"temporary file of {nm[0]} was removed after {why} although it was to be kept")

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("comm", "none"), ("dir", ""), ("old", False), ("stale", 0), ("raise", None), ("preserve", False),
                     ("crash_p", 0.0), ("err_p", 0.0), ("mode", "plain"), ("tmpdir", False), ("sizes", [1])):
            if program.get(k) != v:
                yield dict(program, **{k: v})

    def describe(self, program):
        return {k: v for k, v in program.items() if k != "env"}


PROP = P()
