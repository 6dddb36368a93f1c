"""Search, minimise, replay and report: the command behind every check.

    python -m simlab.runner C01 --tier quick
    python -m simlab.runner --replay FILE
"""

import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import subprocess
import sys
import time
import traceback

from . import bootstrap
from .sched import Choices, HarnessError

VERIF = bootstrap.VERIF
T0 = time.monotonic()
_mono = time.monotonic
_perf = time.perf_counter


def load_prop(pid):
    bootstrap.bootstrap()
    mod = importlib.import_module(f"simlab.props.{pid.lower()}")
    p = mod.PROP
    p.load()
    return p


def case_for(prop, base, i):
    """Program and seed of run number i."""
    from .harness import rng_for, seed_for

    directed = prop.directed()
    seed = seed_for(base, prop.id, i)
    if i < len(directed):
        return directed[i], seed
    return prop.generate(rng_for(seed), i), seed


def rle(xs):
    out = []
    for x in xs:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def unrle(xs):
    return [v for v, n in xs for _ in range(n)]


# -- worker ------------------------------------------------------------------
def worker(pid, base, indices, conn, recheck_every):
    try:
        prop = load_prop(pid)
    except BaseException:  # noqa: BLE001
        conn.send(("fatal", traceback.format_exc()))
        return
    conn.send(("ready", os.getpid()))
    for i in indices:
        conn.send(("start", i))
        t = _perf()
        try:
            program, seed = case_for(prop, base, i)
            ch = Choices(seed=seed)
            v, st, ctx = prop.run_one(program, ch)
            d = st.asdict()
            same = None
            if recheck_every and i % recheck_every == 0:
                v2, st2, _ = prop.run_one(program, Choices(replay=list(ch.log)))
                same = (st2.asdict()["digest"] == d["digest"]) and (str(v2) == str(v))
            d["wall"] = _perf() - t
            msg = None
            if v is not None:
                msg = {
                    "kind": v.kind, "msg": v.msg, "program": program, "seed": seed,
                    "choices": list(ch.log),
                }
            conn.send(("done", i, d, msg, same, prop.describe(program) if hasattr(prop, "describe") else None))
        except BaseException:  # noqa: BLE001
            conn.send(("error", i, traceback.format_exc()))
    conn.send(("end",))


# -- minimiser -----------------------------------------------------------------
def minimise(prop, program, choices, kind, budget=60.0, known=None):
    """Smallest program and draw list found that still shows the same kind of violation."""
    deadline = _mono() + budget
    tries = 0

    def test(p, c):
        nonlocal tries
        tries += 1
        ch = Choices(replay=list(c))
        try:
            v, _, _ = prop.run_one(p, ch)
        except BaseException:  # noqa: BLE001
            return None
        if v is not None and v.kind == kind and not (known and known(v)):
            return list(ch.log), v
        return None

    best = (program, list(choices))
    r = test(program, choices)
    if r is None:
        return None
    best = (program, r[0], r[1])
    improved = True
    while improved and _mono() < deadline:
        improved = False
        for q in prop.shrink(best[0]):
            if _mono() > deadline:
                break
            got = test(q, []) or test(q, best[1])
            if got is None:
                for k in range(2):
                    ch = Choices(seed=1000 + k)
                    tries += 1
                    try:
                        v, _, _ = prop.run_one(q, ch)
                    except BaseException:  # noqa: BLE001
                        continue
                    if v is not None and v.kind == kind and not (known and known(v)):
                        got = (list(ch.log), v)
                        break
            if got is not None:
                best = (q, got[0], got[1])
                improved = True
                break
    # the schedule: towards all zeros
    p, c, v = best
    got = test(p, [])
    if got is not None:
        c, v = [], got[1]
    else:
        hi = len(c)
        k = max(hi // 2, 1)
        while k >= 1 and _mono() < deadline:
            s = 0
            while s < len(c) and _mono() < deadline:
                if any(c[s : s + k]):
                    q = c[:s] + [0] * len(c[s : s + k]) + c[s + k :]
                    got = test(p, q)
                    if got is not None:
                        c, v = q, got[1]
                s += k
            if k == 1:
                break
            k = max(k // 2, 1)
            if hi > 3000 and k < 8:
                break
        while c and c[-1] == 0:
            c.pop()
    return p, c, v, tries


def write_replay(prop, base, i, found, path, minimised):
    p, c, v = found
    rec = {
        "property": prop.id,
        "violation": {"kind": v["kind"], "msg": v["msg"]},
        "program": p,
        "choices_rle": rle(c),
        "search": {"base_seed": base, "run": i, "minimised": minimised},
        "how": "bash /verif/run.sh --replay <this file>",
    }
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
    return path


def replay(path, show=True):
    rec = json.load(open(path))
    prop = load_prop(rec["property"])
    ch = Choices(replay=unrle(rec["choices_rle"]))
    v, st, ctx = prop.run_one(rec["program"], ch)
    if show:
        print(f"property {rec['property']}; program {json.dumps(rec['program'])}")
        for sim in ctx.trace[-1:]:
            for ev in sim.events[-60:]:
                print("  ", *ev)
    print("DIGEST", st.asdict()["digest"])
    if v is None:
        print("REPLAY no violation")
        return 0
    print(f"REPLAY-VIOLATION kind={v.kind} {v.msg}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def fresh_replay(path, hashseed="0"):
    """Replay in a new process; returns the kind of violation seen, or None."""
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    try:
        r = subprocess.run(
            [sys.executable, "-m", "simlab.runner", "--replay", path, "--terse"],
            cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300,
        )
    except subprocess.TimeoutExpired:
        return "hang", None
    kind = dig = None
    for ln in r.stdout.splitlines():
        if ln.startswith("REPLAY-VIOLATION kind="):
            kind = ln.split("kind=")[1].split()[0]
        if ln.startswith("DIGEST"):
            dig = ln
    return kind, dig


def _minimise_job(pid, program, choices, kind, conn, budget):
    try:
        prop = load_prop(pid)
        kf = known_findings(prop.id)
        m = minimise(prop, program, choices, kind, budget, lambda v: match_known(kf, v.kind, v.msg) is not None)
        if m is None:
            conn.send(None)
        else:
            conn.send((m[0], m[1], {"kind": m[2].kind, "msg": m[2].msg}, m[3]))
    except BaseException:  # noqa: BLE001
        conn.send(None)


# -- known findings --------------------------------------------------------------
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [
        f for f in json.load(open(path)).get("findings", [])
        if f.get("property") == pid and f.get("status") == "open"
    ]


def match_known(kf, kind, msg):
    import re

    for f in kf:
        if f["kind"] == kind and re.search(f["match"], msg):
            return f
    return None


# -- search -----------------------------------------------------------------------
def search(pid, tier, base, nruns, workers, wall_cap, recheck_every):
    prop = load_prop(pid)  # also warms the page cache before the workers start
    kf = known_findings(prop.id)
    ctx = mp.get_context("fork")
    agg = {
        "runs": 0, "sims": 0, "steps": 0, "switches": 0, "vtime": 0.0, "messages": 0,
        "faults": {}, "probes": {}, "digests": set(), "scheds": set(), "rechecks": 0,
        "recheck_bad": 0, "errors": [], "samples": [], "hangs": [], "shapes": {},
    }
    known_seen = {}
    violation = None
    rejected = []
    jobs = []
    t0 = _mono()

    def start(idx):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(pid, base, idx, b, recheck_every), daemon=True)
        p.start()
        b.close()
        return {"p": p, "conn": a, "idx": idx, "cur": None, "since": _mono(), "live": True, "done": 0}

    for w in range(workers):
        idx = list(range(w, nruns, workers))
        if idx:
            jobs.append(start(idx))
    stop = False
    while any(j["live"] for j in jobs) and not stop:
        ready = mpc.wait([j["conn"] for j in jobs if j["live"]], timeout=1.0)
        for j in [j for j in jobs if j["live"] and j["conn"] in ready]:
            try:
                m = j["conn"].recv()
            except EOFError:
                j["live"] = False
                if j["cur"] is not None:
                    agg["errors"].append(f"worker died in run {j['cur']}")
                continue
            j["since"] = _mono()
            if m[0] == "start":
                j["cur"] = m[1]
            elif m[0] == "done":
                j["cur"] = None
                j["done"] += 1
                _, i, d, v, same, desc = m
                agg["runs"] += 1
                for k in ("sims", "steps", "switches", "vtime", "messages"):
                    agg[k] += d[k]
                for k in ("faults", "probes"):
                    for a, b in d[k].items():
                        agg[k][a] = agg[k].get(a, 0) + b
                agg["digests"].add(d["digest"])
                if d["switches"] > d["sims"]:
                    agg["scheds"].add(d["sched"])
                if same is not None:
                    agg["rechecks"] += 1
                    agg["recheck_bad"] += not same
                if desc and len(agg["samples"]) < 6 and v is None:
                    agg["samples"].append(desc)
                if v is not None:
                    f = match_known(kf, v["kind"], v["msg"])
                    if f is not None:
                        known_seen[f["id"]] = f
                        continue
                    if violation is None:
                        ok = confirm(prop, base, i, v, tier)
                        if ok is not None:
                            violation = ok
                            stop = True
                            break
                        rejected.append((i, v["kind"], v["msg"]))
                        if len(rejected) > 20:
                            stop = True
                            break
            elif m[0] == "error":
                j["cur"] = None
                agg["errors"].append(f"run {m[1]}: {m[2]}")
            elif m[0] in ("fatal",):
                agg["errors"].append(m[1])
                j["live"] = False
            elif m[0] == "end":
                j["live"] = False
        for j in jobs:
            if j["live"] and j["cur"] is not None and _mono() - j["since"] > prop.hang_s:
                # code under test that loops without ever reaching a scheduling point
                i = j["cur"]
                j["p"].kill()
                j["live"] = False
                agg["hangs"].append(i)
                rest = [x for x in j["idx"] if x > i]
                program, seed = case_for(prop, base, i)
                v = {"kind": "hang", "msg": f"run {i} made no progress for {prop.hang_s:.0f} s of wall time",
                     "program": program, "seed": seed, "choices": []}
                path = os.path.join(VERIF, "replays", f"{prop.id}-{base}-{i}.json")
                write_replay(prop, base, i, (program, [], v), path, False)
                violation = (path, v)
                stop = True
                break
                if rest:
                    jobs.append(start(rest))
        if _mono() - t0 > wall_cap:
            stop = True
            agg["capped"] = True
    for j in jobs:
        if j["p"].is_alive():
            j["p"].kill()
        j["p"].join(5)
    agg["wall"] = _mono() - t0
    return prop, agg, violation, known_seen, rejected


def confirm(prop, base, i, v, tier):
    """Minimise, write the replay file and see the violation again in a fresh process."""
    path = os.path.join(VERIF, "replays", f"{prop.id}-{base}-{i}.json")
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)
    budget = 45.0 if tier == "quick" else 150.0
    p = ctx.Process(target=_minimise_job, args=(prop.id, v["program"], v["choices"], v["kind"], b, budget), daemon=True)
    p.start()
    b.close()
    m = None
    if a.poll(budget + 120):
        try:
            m = a.recv()
        except EOFError:
            m = None
    p.kill()
    p.join(5)
    if m is not None:
        write_replay(prop, base, i, (m[0], m[1], m[2]), path, True)
        k, d = fresh_replay(path)
        k2, d2 = fresh_replay(path, hashseed="12345")
        if k == m[2]["kind"] and k2 == k and d == d2:
            return path, m[2]
    # the unminimised trace
    write_replay(prop, base, i, (v["program"], v["choices"], v), path, False)
    k, _ = fresh_replay(path)
    if k is not None:
        return path, v
    os.rename(path, path + ".unconfirmed")
    return None


def evidence(prop, tier, base, agg, violation, known_seen, rejected, nruns):
    wall = max(agg["wall"], 1e-3)
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": base,
        "level": prop.level,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["scheds"]),
            "rule": prop.rule
            + " | distinct_nontrivial counts distinct sequences of rank switches among runs with at "
            "least one preemption; every run also has its own generated program",
            "samples": agg["samples"] or ["(none)"],
            "runs_requested": nruns,
            "simulations": agg["sims"],
            "runs_per_hour": int(agg["runs"] / wall * 3600),
            "simulations_per_hour": int(agg["sims"] / wall * 3600),
            "simulated_seconds": round(agg["vtime"], 3),
            "scheduling_steps": agg["steps"],
            "context_switches": agg["switches"],
            "messages": agg["messages"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "situations_reached": dict(sorted(agg["probes"].items())),
            "distinct_event_logs": len(agg["digests"]),
            "determinism_rechecks": agg["rechecks"],
            "determinism_mismatches": agg["recheck_bad"],
            "real_components": list(prop.real),
            "stubbed_components": list(prop.stub),
            "harness_errors": len(agg["errors"]),
            "unconfirmed": len(rejected),
        },
        "wall_s": round(wall, 3),
        "assumptions": list(prop.assumptions),
        "violations": [] if violation is None else [{"replay": violation[0], "kind": violation[1]["kind"], "what": violation[1]["msg"]}],
        "known_findings": [f["id"] for f in known_seen.values()],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop.id}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    return ev


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--terse", action="store_true")
    ap.add_argument("--one", type=int)
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        bootstrap.bootstrap()
        import caput.mpiarray  # noqa: F401

        print("simlab ready")
        return 0
    if a.replay:
        return replay(a.replay, not a.terse)
    if a.one is not None:
        prop = load_prop(a.prop)
        program, seed = case_for(prop, a.seed, a.one)
        print(json.dumps(program))
        v, st, ctx = prop.run_one(program, Choices(seed=seed))
        print(json.dumps(st.asdict())[:600])
        print("VIOL", v)
        return 0
    prop = load_prop(a.prop)
    n = a.runs or (prop.quick_runs if a.tier == "quick" else prop.thorough_runs)
    cap = a.wall or (700.0 if a.tier == "quick" else 6 * 3600.0)
    prop, agg, violation, known, rejected = search(a.prop, a.tier, a.seed, n, a.workers, cap, 25)
    ev = evidence(prop, a.tier, a.seed, agg, violation, known, rejected, n)
    c = ev["coverage"]
    print(
        f"{prop.id} {a.tier}: {c['evaluations']} runs ({c['simulations']} simulations, {c['scheduling_steps']} steps, "
        f"{c['distinct_nontrivial']} distinct schedules) in {ev['wall_s']:.0f} s; faults {c['faults_injected']}"
    )
    for f in known.values():
        print(f"KNOWN-FINDING: property={prop.id} {f['what']}")
    if violation is not None:
        print(f"{violation[1]['kind']}: {violation[1]['msg']}")
        print(f"VIOLATION property={prop.id} replay={violation[0]}")
        return 1
    if agg["errors"] or rejected:
        for e in agg["errors"][:3]:
            print("HARNESS-ERROR", e, file=sys.stderr)
        for r in rejected[:3]:
            print("UNCONFIRMED", r, file=sys.stderr)
        if agg["errors"] or rejected:
            return 2
    if agg["runs"] < max(1, n // 5):
        print("too few runs in the wall time given", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except HarnessError:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
