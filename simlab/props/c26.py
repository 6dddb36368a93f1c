"""C26: astronomical data found on disk, at the official source or at the mirror, by several processes."""

import copy
import http.client
import os
import re
import shutil
import socket
import struct
import urllib.error
import warnings

from .. import fs as F
from .. import harness, sched
from ..sched import Violation, current

TS = "finals2000A.all"
FTP = b"FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP"


def finals(v):
    out = b""
    for d in range(6):
        x = -0.5 if d < 2 else 0.5 + v * 1e-4
        out += (f"73 1{d + 2:2d} {41684.0 + d:8.2f} I  0.120733 0.009786  0.136966 0.015902  I{x:10.7f} 0.0002710  0.0000 0.1916  P    -0.766    0.199"
                "    -0.720    0.300   .143000   .137000   .8075000   -18.637    -3.667  \n").encode()
    return out


def bsp(v):
    rec = struct.pack("<8sII60sIII8s603s28s297s", b"DAF/SPK ", 2, 6, f"v{v:06d}".encode().ljust(60), 2, 2, 300, b"LTL-IEEE", b"\0" * 603, FTP, b"\0" * 297)
    return rec + struct.pack("<ddd", 0, 0, 0).ljust(1024, b"\0") + b" " * 1024


def leap(v):
    return f"# leap seconds {v}\n".encode() * 5


def blob(name, v):
    return (finals if name == TS else bsp if name.endswith(".bsp") else leap)(v)


class Net:
    """The official servers and the mirror; every answer is a new version of the file."""

    def __init__(self, p, faulty):
        self.p, self.faulty = p, faulty
        self.version = 10
        self.known = {}  # name -> versions served
        self.log = {}  # rank -> requests of the current call

    def request(self, url):
        sim, st = sched.ACTIVE, current()
        name = url.rsplit("/", 1)[-1]
        host = url.split("/")[2]
        where = "mirror" if host == "bao.chimenet.ca" else "official"
        rec = {"name": name, "where": where, "ok": None, "url": url, "v": None}
        self.log.setdefault(st.rank, []).append(rec)
        sim.step()
        sim.log("net", where, name)
        if sim.chance(0.3):
            sim.sleep((0.01, 1.0, 30.0)[sim.pick(3)])
        bad = self.faulty and sim.chance(self.p["off_p"] if where == "official" else self.p["mir_p"])
        kind = sim.pick(6) if bad else None
        if kind is not None:
            rec["ok"] = False
            sim.fault(f"net_{where}_{('refused', 'not_found', 'timeout', 'unreachable', 'reset', 'incomplete')[kind]}")
            if kind == 0:
                raise urllib.error.URLError(ConnectionRefusedError(111, "refused (injected)"))
            if kind == 1:
                raise urllib.error.HTTPError(url, 404, "Not Found (injected)", {}, None)
            if kind == 2:
                raise socket.timeout("timed out (injected)")
            if kind == 3:
                raise urllib.error.URLError(socket.gaierror(-2, "Name or service not known (injected)"))
        self.version += 1
        v = self.version
        rec["v"] = v
        self.known.setdefault(name, set()).add(v)
        return Conn(rec, blob(name, v), kind)


class Conn:
    headers = {}

    def __init__(self, rec, data, kind):
        self.rec, self.data, self.kind, self.pos = rec, data, kind, 0

    def read(self, n=-1):
        sim = sched.ACTIVE
        sim.step()
        if self.kind is not None and self.pos >= len(self.data) // 2:
            raise ConnectionResetError(104, "reset (injected)") if self.kind == 4 else http.client.IncompleteRead(b"")
        k = max(1, len(self.data) // 3)
        d = self.data[self.pos : self.pos + k]
        self.pos += k
        if not d:
            self.rec["ok"] = True
        elif sim.chance(0.2):
            sim.sleep((0.001, 5.0)[sim.pick(2)])
        return d

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class P(harness.Prop):
    id = "C26"
    title = "Astronomical data is found, fetched or refused alike, and its files are never left broken"
    rule = (
        "a run = 1..4 ranks, each with its own wrapper on one data directory that holds some of the files, asking for the time scale and the ephemeris and reloading them, while the official source and the "
        "mirror refuse, time out or break off at random, writes fail, and everything may be killed and started again; requests, results and every state of the files are compared with a model"
    )
    real = ("caput.astro.skyfield.SkyfieldWrapper", "skyfield.iokit (Loader, download)", "jplephem")
    stub = ("network (official servers and mirror)", "clock", "data files (small, every download a new version)")
    quick_runs = 4000
    thorough_runs = 200000
    assumptions = ("data files are not removed or replaced by others while processes run",)

    def load(self):
        from caput.astro import skyfield as csf
        from skyfield import iokit

        self.csf = csf
        self.net = None

        def urlopen(url, *a, **k):
            if self.net is None or current() is None:
                raise urllib.error.URLError("no network")
            return self.net.request(url)

        iokit.urlopen = urlopen
        iokit.create_default_context = lambda *a, **k: None
        iokit.ProgressBar = type("Bar", (), {"__init__": lambda s, *a: None, "report": lambda s, *a: None})

    # -- programs -----------------------------------------------------------------------
    def generate(self, rng, i):
        n = rng.choice([1, 1, 2, 3, 4])
        ops = []
        for _ in range(rng.randrange(1, 8)):
            ops.append([rng.randrange(n), rng.choice(["ts", "ts", "eph", "eph", "reload", "new"])])
        return {"n": n, "ops": ops, "have": [rng.random() < 0.35, rng.random() < 0.35, rng.random() < 0.5], "where": rng.choice(["path", "path", "env", "both"]), "deep": rng.random() < 0.3,
                "eph": rng.choice(["de421.bsp", "de421.bsp", "de440s.bsp", "jup365.bsp"]), "off_p": rng.choice([0.0, 0.0, 0.3, 0.7, 1.0]), "mir_p": rng.choice([0.0, 0.0, 0.3, 1.0]),
                "crash_p": rng.choice([0.0, 0.0, 0.03, 0.1]), "err_p": rng.choice([0.0, 0.0, 0.0, 0.05]), "env": harness.gen_env(rng)}

    def directed(self):
        b = {"n": 1, "ops": [[0, "ts"], [0, "eph"], [0, "reload"], [0, "ts"], [0, "eph"]], "have": [False, False, False], "where": "path", "deep": False, "eph": "de421.bsp", "off_p": 0.0, "mir_p": 0.0,
             "crash_p": 0.0, "err_p": 0.0, "env": dict(harness.QUIET)}
        return [b, dict(b, have=[True, True, True]), dict(b, off_p=1.0), dict(b, off_p=1.0, mir_p=1.0), dict(b, where="both"), dict(b, n=3, ops=[[r, k] for r in range(3) for k in ("ts", "eph")])]

    # -- execution -----------------------------------------------------------------------
    def execute(self, program, ctx):
        p = copy.deepcopy(program)
        root = os.path.realpath(ctx.dir())
        sub = "d/e" if p["deep"] else "d"
        os.makedirs(os.path.join(root, "d"))
        top = os.path.join(root, "d")
        base = os.path.join(root, sub)
        known = {TS: {0}, p["eph"]: {0}}
        if any(p["have"]):
            os.makedirs(base, exist_ok=True)
        for have, nm in zip(p["have"], (TS, p["eph"], "Leap_Second.dat")):
            if have:
                with open(os.path.join(base, nm), "wb") as f:
                    f.write(blob(nm, 0))
        old = os.environ.get("CAPUT_SKYFIELD_PATH")
        snap = os.path.join(root, "snap")
        try:
            if self.phase(p, ctx, top, base, known, snap, True):
                ctx.probe("restarted")
                shutil.rmtree(top)
                shutil.copytree(snap, top)
                self.phase(p, ctx, top, base, known, None, False)
        finally:
            self.net = None
            os.environ.pop("CAPUT_SKYFIELD_PATH", None)
            if old is not None:
                os.environ["CAPUT_SKYFIELD_PATH"] = old

    def version(self, path, name, known):
        """The version of a file on disk; None if there is none."""
        try:
            with F.R["open"](path, "rb") as f:
                d = f.read()
        except FileNotFoundError:
            return None
        for v in known.get(name, ()):
            if d == blob(name, v):
                return v
        raise Violation("broken-file", f"{name} holds {len(d)} bytes that are no complete version of it ({len(blob(name, 0))} bytes)")

    def phase(self, p, ctx, top, base, known, snap, faulty):
        n, eph = p["n"], p["eph"]
        net = self.net = Net(p, faulty)
        net.version = 10 + max(max(s) for s in known.values())
        net.known = known
        hist = {TS: [], eph: []}  # (time, version) as the files change
        paths = {nm: os.path.join(base, nm) for nm in (TS, eph)}
        stamp = [0]

        def watch(name, path):
            stamp[0] += 1
            for nm, q in paths.items():
                if path == q or path.startswith(q) or name in ("start",):
                    v = self.version(q, nm, known)
                    if not hist[nm] or hist[nm][-1][1] != v:
                        hist[nm].append((stamp[0], v))

        os.environ.pop("CAPUT_SKYFIELD_PATH", None)
        if p["where"] == "env":
            os.environ["CAPUT_SKYFIELD_PATH"] = base
        elif p["where"] == "both":
            os.environ["CAPUT_SKYFIELD_PATH"] = top + "-other"
        cfg = {"root": top, "snap": snap, "stat_step": True}
        if faulty:
            cfg.update(crash_p=p["crash_p"], err_p=p["err_p"], err_max=2)

        def prepare(sim, world):
            F.attach(cfg)(sim, world)
            sim.fs.watch.append(watch)
            watch("start", "")

        make = lambda: self.csf.SkyfieldWrapper(ephemeris=eph) if p["where"] == "env" else self.csf.SkyfieldWrapper(path=base, ephemeris=eph)
        ops = p["ops"] if faulty else p["ops"] + [[r, k] for r in range(n) for k in ("ts", "eph")]

        def rank_main(wr):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.rank(p, wr, [k for r, k in ops if r == wr], make, net, base, hist, stamp, known, paths, ctx)

        run = ctx.simulate(n, rank_main, p["env"], prepare=prepare, finish=F.detach)
        if run.outcome == "crash":
            for nm, q in paths.items():
                self.version(os.path.join(snap, os.path.relpath(q, top)), nm, known)
            return True
        ctx.require_clean(run, f"{p['ops']}, files there {p['have']}")
        for nm, q in paths.items():
            self.version(q, nm, known)
        return False

    def rank(self, p, wr, ops, make, net, base, hist, stamp, known, paths, ctx):
        eph = p["eph"]
        sim = sched.ACTIVE
        fserr = lambda: len(sim.fs.errors)
        w = None
        cache = {}
        floor = {TS: None, eph: None}  # data returned must have been on disk at or after this time
        for k in ["new", *ops]:
            what = f"rank {wr} of {p['n']} {k} (calls {ops}, files there at first {p['have']})"
            net.log[wr] = log = []
            e0, t0 = fserr(), stamp[0]
            obj = exc = None
            if k in ("ts", "eph"):
                there = F.R["exists"](paths[TS if k == "ts" else eph])
            try:
                if k == "new":
                    obj = make()
                elif k == "ts":
                    obj = w.timescale
                elif k == "eph":
                    obj = w.ephemeris
                else:
                    w.reload()
            except OSError as e:
                exc = e
            except (sched.SimAbort, Violation):
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation("exception", f"{what}: {type(e).__name__}: {str(e)[:200]}")
            failed = [r for r in log if r["ok"] is not True]
            err = fserr() > e0
            if k == "new":
                if exc is not None:
                    if not err:
                        raise Violation("exception", f"{what}: {exc!r}")
                    obj = None
                    while obj is None:
                        try:
                            obj = make()
                        except OSError:
                            pass
                w, cache = obj, {}
                floor = {TS: stamp[0], eph: stamp[0]}
                if os.path.realpath(w.path) != base:
                    raise Violation("path", f"{what}: the data directory is {w.path}, not {base}")
                if log:
                    raise Violation("requests", f"{what}: {[r['url'] for r in log]} asked for before anything was wanted")
                continue
            if k == "reload":
                if any(r["where"] != "official" for r in log):
                    raise Violation("requests", f"{what}: asked {[r['url'] for r in log]}; a reload uses the official sources")
                if exc is not None:
                    if not failed and not err:
                        raise Violation("refused", f"{what}: {exc!r} although every download succeeded")
                    ctx.probe("reload_failed")
                else:
                    if failed:
                        raise Violation("not-reported", f"{what}: the download of {[r['name'] for r in failed]} failed and no error was raised")
                    if {r["name"] for r in log} != {TS, eph}:
                        raise Violation("requests", f"{what}: downloaded {[r['name'] for r in log]}")
                    ctx.probe("reloaded")
                    cache = {}
                    for r in log:
                        floor[r["name"]] = stamp[0]
                if exc is not None:
                    # what was fetched before the error may be used or not
                    cache = {c: (o, True) for c, (o, _) in cache.items()}
                continue
            nm = TS if k == "ts" else eph
            if k in cache and not cache[k][1]:
                if exc is not None or obj is not cache[k][0] or log:
                    raise Violation("cache", f"{what}: loaded before, now {exc!r} {'the same' if obj is cache[k][0] else 'another'} object, {len(log)} requests")
                continue
            names = [r for r in log if r["name"] not in (nm, "Leap_Second.dat") and not (k == "ts" and r["name"].startswith("deltat"))]
            if names:
                raise Violation("requests", f"{what}: asked for {[r['url'] for r in names]}")
            if there and log and not err:
                raise Violation("requests", f"{what}: {nm} is on disk and {[r['url'] for r in log]} was asked for")
            off = [r for r in log if r["where"] == "official"]
            mir = [r for r in log if r["where"] == "mirror"]
            if mir and not err and (not off or all(r["ok"] for r in off)):
                raise Violation("requests", f"{what}: the mirror was asked although the official source did not fail ({[(r['where'], r['ok']) for r in log]})")
            if exc is not None:
                if not err and not failed:
                    raise Violation("refused", f"{what}: {exc!r} although nothing failed")
                if not err and not any(r["ok"] is False for r in mir):
                    raise Violation("refused", f"{what}: {str(exc)[:150]}: gave up after {[(r['where'], r['name'], r['ok']) for r in log]}")
                if not err and there:
                    raise Violation("refused", f"{what}: {str(exc)[:150]} although {nm} is on disk")
                ctx.probe("unavailable")
                cache.pop(k, None)
                continue
            if obj is None:
                raise Violation("no-data", f"{what}: None")
            v = self.loaded(k, obj, what)
            if v not in known[nm]:
                raise Violation("wrong-data", f"{what}: data of no known version ({v})")
            soft = k in cache and cache[k][1] and obj is cache[k][0]
            t = floor[nm]
            ok = {x for s, x in hist[nm] if s >= t}
            ok |= {[x for s, x in hist[nm] if s <= t][-1]} if any(s <= t for s, x in hist[nm]) else set()
            if v not in ok and not soft:
                raise Violation("stale", f"{what}: version {v} of {nm}, on disk since it was reloaded were {sorted(map(str, ok))}")
            if os.path.basename(getattr(obj, "path", nm)) != nm:
                raise Violation("wrong-data", f"{what}: loaded {obj.path}")
            if mir:
                ctx.probe("from_mirror")
            elif off:
                ctx.probe("from_official")
            else:
                ctx.probe("from_disk")
            cache[k] = (obj, False)

    def loaded(self, k, obj, what):
        if k == "eph":
            m = re.match(rb"v(\d+)", obj.spk.daf.locifn)
            obj.spk.daf.file.close()
            return int(m.group(1))
        d = 44.684 + 1 - obj.delta_t_table[1][-1] - 0.5
        # delta T = 45.184 - dut1 after the leap second
        return round((45.1840 - float(obj.delta_t_table[1][-1]) - 0.5) * 1e4)

    def shrink(self, program):
        yield from super().shrink(program)
        for k, v in (("crash_p", 0.0), ("err_p", 0.0), ("where", "path"), ("deep", False), ("eph", "de421.bsp"), ("have", [False, False, False])):
            if program.get(k) != v:
                yield dict(program, **{k: v})


PROP = P()
