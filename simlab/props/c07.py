"""C07: random task graphs run by the real pipeline manager against a dataflow model."""

import copy
import re

import numpy as np
import yaml

from .. import harness, sched
from ..sched import Violation

TYPES = ["str", "arr", "zero", "list", "dict", "empty"]
FLOW = "caput.pipeline.tasklib.flow."


def product(kind, *ident):
    """A data product that carries its identity."""
    if kind == "arr":
        return np.array(ident)
    if kind == "zero":
        return 0
    if kind == "empty":
        return []
    if kind == "list":
        return list(ident)
    if kind == "dict":
        return {"id": list(ident)}
    return ".".join(str(x) for x in ident)


def ident(x):
    if isinstance(x, np.ndarray):
        return ["arr"] + x.tolist()
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [ident(y) for y in x]
    if isinstance(x, dict):
        return {k: ident(v) for k, v in x.items()}
    return x


def passes(pattern, key):
    return re.search(pattern or r"[^\W_]", key) is not None


# -- the model ---------------------------------------------------------------------
class Stop(Exception):
    pass


def model_task(t, tid, streams):
    """The calls a task receives and the products it emits: -> log, {key: products}."""
    out = {k: [] for k in t["out"]}
    log = []
    kind = t["kind"]

    def emit(x):
        if x is None or not t["out"]:
            return
        vals = [x] if len(t["out"]) == 1 and t["out_form"] == "str" else list(x)
        for k, v in zip(t["out"], vals):
            out[k].append(v)

    reqs = [streams.get(k, []) for k in t["req"]]
    ok = all(len(s) >= 1 for s in reqs)
    ins = [streams.get(k, []) for k in t["in"]]
    n_in = min((len(s) for s in ins), default=None)
    state = {"items": []}
    if ok:
        log.append(["setup"] + [ident(s[0]) for s in reqs])
        if kind == "sim" and t["setup_out"]:
            emit(make_out(t, tid, -1))
        i = 0
        n_out = 0
        while n_in is None or i < n_in:
            args = [s[i] for s in ins]
            log.append(["next"] + [ident(a) for a in args])
            x, stop = model_next(t, tid, i, args, state)
            i += 1
            if stop:
                break
            if x is not None:
                n_out += 1
                emit(x)
                if t["limit"] is not None and n_out >= t["limit"]:
                    break
    log.append(["finish"])
    if kind == "sim" and t["finish_out"]:
        emit(make_out(t, tid, -2))
    elif kind == "acc" and t["group"] is None:
        emit(state["items"])
    return log, out


def model_next(t, tid, i, args, state):
    kind = t["kind"]
    if kind == "sim":
        if t["stop"] is not None and i >= t["stop"]:
            return None, True
        if i in t["none"]:
            return None, False
        if t["through"] and args and len(t["out"]) == 1:
            return (args[0] if t["out_form"] == "str" else [args[0]]), False
        return make_out(t, tid, i), False
    if kind == "input":
        return (None, True) if i >= t["stop"] else (product(t["type"], tid, i), False)
    if kind == "acc":
        state["items"].append(args[0])
        if t["group"] is not None and len(state["items"]) >= t["group"]:
            x, state["items"] = state["items"], []
            return x, False
        return None, False
    if kind == "gather":
        return list(args), False
    if kind in ("pass", "wait", "copy"):
        return args[0], False
    return None, False


def make_out(t, tid, i):
    m = len(t["out"])
    if m == 0:
        return product(t["type"], tid, i, 0)
    if m == 1 and t["out_form"] == "str":
        return product(t["type"], tid, i, 0)
    return tuple(product(t["type"], tid, i, j) for j in range(m))


class P(harness.Prop):
    id = "C07"
    title = "Pipelines deliver every product exactly once, in order, and always finish"
    rule = (
        "a run = a random graph of up to 8 tasks (sources, maps with several inputs and outputs, accumulators, setup products, early "
        "stops, limits, priorities, the library's flow tasks) run by the real Manager on 1..5 simulated ranks from YAML or Python; "
        "every call each task received is compared with a dataflow model and between ranks"
    )
    real = ("caput.pipeline._pipeline", "caput.pipeline.tasklib.flow", "caput.pipeline.extensions", "caput.config", "caput.util.mpitools")
    stub = ("mpi4py (simulated network)", "clock")
    quick_runs = 8000
    thorough_runs = 400000
    assumptions = ("tasks are declared after the tasks whose products they use", "a product used by setup is produced at most once")

    def load(self):
        from caput import config, pipeline
        from caput.pipeline import exceptions
        from caput.pipeline.tasklib import flow
        from caput.util import mpitools
        import time

        self.config, self.pipeline, self.exc, self.flow, self.tools = config, pipeline, exceptions, flow, mpitools
        prop = self

        def here():
            return prop.state[sched.current().rank]

        class SimTask(pipeline.Task):
            tid = config.Property(proptype=int)

            def __init__(self):
                self.i = 0

            def rec(self, *entry):
                st = here()
                st.log.append((self.tid, [entry[0]] + [ident(a) for a in entry[1:]]))
                t = st.program["tasks"][self.tid]
                if t["slow"] and (st.rank + self.tid) % 2:
                    time.sleep(t["slow"])
                if t["coll"]:
                    mpitools.world.Barrier()
                return t

            def setup(self, *req):
                t = self.rec("setup", *req)
                return make_out(t, self.tid, -1) if t["setup_out"] else None

            def next(self, *args):
                t = self.rec("next", *args)
                here().seen.setdefault(self.tid, []).append(args)
                i = self.i
                self.i += 1
                x, stop = model_next(t, self.tid, i, list(args), {})
                if stop:
                    raise exceptions.PipelineStopIteration
                if t.get("wrong") == i and x is not None:
                    return (x,) * (len(t["out"]) + 1) if not isinstance(x, tuple) else x + (1,)
                return x

            def finish(self):
                t = self.rec("finish")
                return make_out(t, self.tid, -2) if t["finish_out"] else None

        class SimOne(SimTask):
            def setup(self, a):
                return super().setup(a)

            def next(self, a):
                return super().next(a)

        class SimOpt(SimTask):
            def setup(self, a=None):
                return super().setup(*([] if a is None else [a]))

            def next(self, a, b=None):
                return super().next(*([a] if b is None else [a, b]))

        class SimSrc(SimTask):
            def setup(self):
                return super().setup()

            def next(self):
                return super().next()

        self.classes = {"SimTask": SimTask, "SimOne": SimOne, "SimOpt": SimOpt, "SimSrc": SimSrc}
        pipeline.local_tasks.update(self.classes)

    # -- programs ---------------------------------------------------------------
    def gen_task(self, rng, tid, streams, py):
        keys = sorted(streams)
        t = {"kind": "sim", "in": [], "req": [], "out": [], "out_form": "list", "in_form": "list", "type": rng.choice(TYPES),
             "setup_out": False, "finish_out": False, "stop": None, "none": [], "limit": None, "prio": 0, "through": False,
             "slow": rng.choice([0, 0, 0.01, 0.5]), "coll": rng.random() < 0.2, "group": None, "cls": "SimTask"}
        r = rng.random()
        single = [k for k in keys if len(streams[k]) <= 1]
        if keys and r < 0.25:
            t["kind"] = rng.choice(["acc", "acc", "gather", "pass", "wait", "copy", "del"])
            if t["kind"] == "wait" and not single:
                t["kind"] = "pass"
            t["in"] = [rng.choice(keys) for _ in range(rng.randrange(1, 4) if t["kind"] == "gather" else 1)]
            if t["kind"] == "wait":
                t["req"] = [rng.choice(single)]
            if t["kind"] == "acc":
                t["group"] = rng.choice([None, None, 1, 2, 3])
            if t["kind"] != "del":
                t["out"] = [f"k{tid}"]
                t["out_form"] = "str"
            t["in_form"] = rng.choice(["list", "str"]) if len(t["in"]) == 1 else "list"
            if t["kind"] != "acc" and rng.random() < 0.1:
                t["limit"] = rng.randrange(1, 4)
        else:
            if py and rng.random() < 0.2:
                t["kind"] = "input"
                t["stop"] = rng.randrange(0, 4)
                t["out"], t["out_form"] = [f"k{tid}"], "str"
            else:
                if keys and rng.random() < 0.72:
                    t["in"] = [rng.choice(keys) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
                    if rng.random() < 0.15:
                        t["stop"] = rng.randrange(0, 4)
                else:
                    t["stop"] = rng.choice([0, 1, 1, 2, 3, 4, 6])
                if single and rng.random() < 0.35:
                    t["req"] = [rng.choice(single) for _ in range(rng.choice([1, 1, 2]))]
                m = rng.choice([0, 1, 1, 1, 1, 2, 3])
                t["out"] = [f"k{tid}" + "abc"[j] for j in range(m)]
                if m > 1 and rng.random() < 0.2:
                    t["out"][rng.randrange(m)] = "_" * (tid + 1)
                t["out_form"] = rng.choice(["str", "list"]) if m == 1 else "list"
                t["in_form"] = rng.choice(["list", "str"]) if len(t["in"]) == 1 else "list"
                t["setup_out"] = rng.random() < 0.2
                t["finish_out"] = rng.random() < 0.3
                t["none"] = [i for i in range(6) if rng.random() < 0.15]
                t["limit"] = rng.randrange(1, 4) if rng.random() < 0.15 else None
                t["through"] = rng.random() < 0.2
                if not t["in"] and t["stop"] is not None and rng.random() < 0.3 and not t["req"]:
                    t["cls"] = "SimSrc"
        t["prio"] = rng.choice([0, 0, 0, 0, 5, -5, 20, -20])
        return t

    def generate(self, rng, i):
        n = rng.choice([1, 1, 2, 3, 4, 5])
        py = rng.random() < 0.35
        tasks, streams = [], {}
        pattern = rng.choice([None, None, None, None, "^k", "[01357]", r"\w"]) if not py else None
        for tid in range(rng.randrange(1, 8)):
            t = self.gen_task(rng, tid, streams, py)
            _, out = model_task(t, tid, streams)
            streams.update({k: v if passes(pattern, k) else [] for k, v in out.items()})
            tasks.append(t)
        used = {k for t in tasks if t["kind"] == "sim" for k in t["in"]}
        left = [k for t in tasks for k in t["out"] if k not in used ]
        for k in left[:6]:
            tid = len(tasks)
            tasks.append({"kind": "output" if py and rng.random() < 0.4 else "sim", "in": [k], "req": [], "out": [], "out_form": "list",
                          "in_form": "str", "type": "str", "setup_out": False, "finish_out": False, "stop": None, "none": [],
                          "limit": None, "prio": 0, "through": False, "slow": 0, "coll": False, "group": None, "cls": "SimTask"})
        bad = None
        if not py and rng.random() < 0.25:
            bad = [rng.choice(["in", "requires", "dup", "key", "few_in", "many_in", "few_req", "many_req", "notype", "class",
                               "outputs", "double", "params", "unused_param", "keytype"]), rng.randrange(100)]
        return {"n": n, "py": py, "interactive": rng.random() < 0.2, "tasks": tasks, "bad": bad,
                "pattern": pattern,
                "params": rng.choice(["inline", "section", "sections"]), "env": harness.gen_env(rng)}

    # -- building -------------------------------------------------------------------
    def spell(self, t, key, form):
        if not t[key]:
            return None
        return t[key][0] if t[form] == "str" else list(t[key])

    def doc(self, program):
        """-> YAML document, expected error class at build (or None), at run (or None)."""
        tasks = []
        doc = {"pipeline": {"tasks": tasks}}
        if program["pattern"]:
            doc["pipeline"]["key_pattern"] = program["pattern"]
        if program["interactive"]:
            doc["pipeline"]["interactive"] = True
        for tid, t in enumerate(program["tasks"]):
            kinds = {"acc": "AccumulateList", "gather": "GatherInputs", "pass": "PassOn", "wait": "WaitUntil", "copy": "MakeCopy", "del": "Delete"}
            s = {"type": FLOW + kinds[t["kind"]] if t["kind"] in kinds else t["cls"]}
            par = {}
            if t["kind"] == "sim":
                par["tid"] = tid
            if t["group"] is not None:
                par["group_size"] = t["group"]
            if t["limit"] is not None:
                par["limit_outputs"] = t["limit"]
            if t["prio"]:
                par["base_priority"] = t["prio"]
            if par:
                if program["params"] == "inline":
                    s["params"] = par
                elif program["params"] == "section":
                    doc[f"p{tid}"] = par
                    s["params"] = f"p{tid}"
                else:
                    for k, v in par.items():
                        doc[f"p{tid}{k}"] = {k: v}
                    s["params"] = [f"p{tid}{k}" for k in par]
            for key, form, name in (("in", "in_form", "in"), ("out", "out_form", "out"), ("req", "in_form", "requires")):
                v = self.spell(t, key, form)
                if name == "requires" and v is not None and t["kind"] != "wait":
                    v = list(t["req"])
                if v is not None:
                    s[name] = v
            tasks.append(s)
        build = run = None
        if program["bad"]:
            what, a = program["bad"]
            err = self.config.CaputConfigError
            sims = [k for k, t in enumerate(program["tasks"]) if t["kind"] == "sim"]
            k = sims[a % len(sims)] if sims else 0
            outs = [x for s in tasks for x in (s.get("out") if isinstance(s.get("out"), list) else [s.get("out")]) if x]
            base = {"params": {"tid": k}}
            if what == "in":
                tasks.insert(a % (len(tasks) + 1), {"type": "SimTask", "in": "nothing", **base})
                build = err
            elif what == "requires":
                tasks.append({"type": "SimTask", "requires": ["nothing"], **base})
                build = err
            elif what == "dup" and outs:
                tasks.append({"type": "SimTask", "out": outs[a % len(outs)], **base})
                build = err
            elif what == "key":
                tasks[a % len(tasks)]["inn"] = "x"
                build = err
            elif what == "few_in":
                tasks.append({"type": "SimOpt", **base})
                build = err
            elif what == "many_in" and outs:
                tasks.append({"type": "SimOpt", "in": [outs[0]] * 3, **base})
                build = err
            elif what == "few_req" and outs:
                tasks.append({"type": "SimOne", "in": outs[0], **base})
                build = err
            elif what == "many_req" and outs:
                tasks.append({"type": "SimOne", "in": outs[0], "requires": [outs[0], outs[0]], **base})
                build = err
            elif what == "notype":
                del tasks[a % len(tasks)]["type"]
                build = err
            elif what == "class":
                tasks[a % len(tasks)]["type"] = "caput.pipeline.tasklib.flow.Nothing"
                build = err
            elif what == "params":
                tasks[a % len(tasks)]["params"] = "nosuch"
                build = err
            elif what == "unused_param":
                tasks[k]["params"] = {"tid": k, "typo": 1}
                build = err
            elif what == "keytype" and outs:
                tasks.append({"type": "SimTask", "in": outs[0], "out": [3], **base})
                build = err
            elif what == "outputs":
                calls = self.model(program)[0]
                for q in range(len(sims)):
                    k = sims[(a + q) % len(sims)]
                    t = program["tasks"][k]
                    n_out = sum(e[0] == "next" for e in calls[k])
                    nxt = [j for j in range(n_out) if (t["stop"] is None or j < t["stop"]) and j not in t["none"]]
                    if len(t["out"]) > 1 and nxt:
                        program["tasks"][k] = dict(t, wrong=nxt[a % len(nxt)])
                        run = self.exc.PipelineRuntimeError
                        break
            elif what == "double":
                base2 = dict(program["tasks"][0], kind="sim")
                # two products for one setup argument
                t0 = dict(base2, **{"in": [], "req": [], "out": ["kdd"], "out_form": "str", "stop": 2 + a % 3, "none": [], "limit": None, "finish_out": False, "setup_out": False, "cls": "SimTask", "through": False, "coll": False, "prio": 0})
                t1 = dict(t0, **{"in": [], "out": ["kde"]})
                t2 = dict(t0, **{"in": ["kde"], "req": ["kdd"], "out": [], "stop": None})
                program["tasks"] = [t0, t1, t2]
                doc["pipeline"].pop("key_pattern", None)
                program["pattern"] = None
                tasks[:] = [{"type": "SimTask", "params": {"tid": 0}, "out": "kdd"}, {"type": "SimTask", "params": {"tid": 1}, "out": "kde"},
                            {"type": "SimTask", "params": {"tid": 2}, "in": "kde", "requires": "kdd"}]
                run = self.exc.PipelineRuntimeError
        return doc, build, run

    def model(self, program):
        streams, logs = {}, {}
        pat = program.get("pattern")
        for tid, t in enumerate(program["tasks"]):
            logs[tid], out = model_task(t, tid, streams)
            for k, v in out.items():
                streams[k] = v if passes(pat, k) else []
        return logs, streams

    def build_py(self, program):
        m = self.pipeline.Manager()
        m.interactive = program["interactive"]
        outs = {}
        for tid, t in enumerate(program["tasks"]):
            if t["kind"] == "input":
                task = self.pipeline.extensions.Input([product(t["type"], tid, q) for q in range(t["stop"])])
            elif t["kind"] == "output":
                task = outs[tid] = self.pipeline.extensions.Output()
            elif t["kind"] == "sim":
                task = self.classes[t["cls"]]()
                task.tid = tid
            else:
                f = self.flow
                task = {"acc": f.AccumulateList, "gather": f.GatherInputs, "pass": f.PassOn, "wait": f.WaitUntil, "copy": f.MakeCopy, "del": f.Delete}[t["kind"]]()
                if t["group"] is not None:
                    task.group_size = t["group"]
            if t["limit"] is not None:
                task.limit_outputs = t["limit"]
            task.base_priority = t["prio"]
            kw = {"in_": self.spell(t, "in", "in_form"), "out": self.spell(t, "out", "out_form"), "requires": list(t["req"]) or None}
            m.add_task(task, **{k: v for k, v in kw.items() if v is not None})
        return m, outs

    # -- execution ------------------------------------------------------------------
    def execute(self, program, ctx):
        program = copy.deepcopy(program)
        n = program["n"]
        build = runerr = None
        text = None
        if not program["py"]:
            doc, build, runerr = self.doc(program)
            text = yaml.safe_dump(doc, sort_keys=False)
        logs, streams = self.model(program)
        self.state = {}
        CE = self.config.CaputConfigError

        def rank_main(r):
            st = self.state[r] = State(program, r)
            outs = {}
            try:
                if text is None:
                    m, outs = self.build_py(program)
                else:
                    m = self.pipeline.Manager.from_yaml_str(text)
            except CE as e:
                if build is None:
                    raise
                st.err = e
                return
            if build is not None:
                raise Violation("accepted", f"rank {r}: an invalid configuration ({program['bad'][0]}) was accepted")
            try:
                if program["interactive"]:
                    g = m.runner()
                    for _ in g:
                        pass
                else:
                    m.run()
            except self.exc.PipelineRuntimeError as e:
                if runerr is None:
                    raise
                st.err = e
                return
            if runerr is not None:
                raise Violation("accepted", f"rank {r}: {program['bad'][0]}: the run ended without an error")
            st.outs = {k: [ident(x) for x in o.outputs] for k, o in outs.items()}
            st.left = [str(t) for t in m.tasks if t is not None]

        run = ctx.simulate(n, rank_main, program["env"], max_steps=60000)
        ctx.require_clean(run)
        harness.require_no_leftovers(run)
        seq = [[(tid, e[0]) for tid, e in self.state[r].log] for r in range(n)]
        for r in range(1, n):
            if seq[r] != seq[0]:
                k = next((q for q, (a, b) in enumerate(zip(seq[0], seq[r])) if a != b), min(len(seq[0]), len(seq[r])))
                raise Violation("ranks-differ", f"rank {r} made other calls than rank 0 from call {k} on: {seq[r][k:k+3]} and {seq[0][k:k+3]}")
        if build is not None or runerr is not None:
            ctx.probe("refused_" + program["bad"][0])
            return
        for r in range(n):
            st = self.state[r]
            if st.left:
                raise Violation("unfinished", f"rank {r}: tasks {st.left} were never finished")
            for tid, t in enumerate(program["tasks"]):
                if t["kind"] == "sim":
                    got = [e for q, e in st.log if q == tid]
                    if got != logs[tid]:
                        k = next((q for q, (a, b) in enumerate(zip(got, logs[tid])) if a != b), min(len(got), len(logs[tid])))
                        raise Violation("wrong-delivery", f"rank {r}: call {k} of task {tid} was {got[k:k+1]}, expected {logs[tid][k:k+1]} ({len(got)} calls of {len(logs[tid])})")
                elif t["kind"] == "output":
                    want = [ident(x) for x in streams.get(t["in"][0], [])]
                    if st.outs[tid] != want:
                        raise Violation("wrong-delivery", f"rank {r}: output task {tid} holds {st.outs[tid]}, expected {want}")
            self.check_copies(program, st)

    def check_copies(self, program, st):
        """MakeCopy hands on objects of its own."""
        for tid, t in enumerate(program["tasks"]):
            if t["kind"] != "copy":
                continue
            for a, b in self.pairs(program, st, t["in"][0], t["out"][0]):
                if isinstance(a, (list, dict, np.ndarray)) and a is b:
                    raise Violation("not-a-copy", f"rank {st.rank}: task {tid} passed its input on uncopied")

    def pairs(self, program, st, k1, k2):
        got = {}
        for tid, t in enumerate(program["tasks"]):
            if t["kind"] == "sim" and tid in st.seen:
                for k in (k1, k2):
                    if k in t["in"]:
                        got[k] = [a[t["in"].index(k)] for a in st.seen[tid]]
        return zip(got.get(k1, []), got.get(k2, []))

    def shrink(self, program):
        yield from super().shrink(program)
        if program["bad"] is None:
            for k in range(len(program["tasks"]) - 1, -1, -1):
                gone = set(program["tasks"][k]["out"])
                if any(gone & (set(t["in"]) | set(t["req"])) for t in program["tasks"]):
                    continue
                # products carry the position of their task, so renumbering is safe
                yield dict(program, tasks=program["tasks"][:k] + program["tasks"][k + 1 :])
        for k, t in enumerate(program["tasks"]):
            for key, v in (("slow", 0), ("coll", False), ("prio", 0), ("limit", None), ("none", []), ("finish_out", False),
                           ("type", "str"), ("through", False)):
                if t[key] != v:
                    yield dict(program, tasks=program["tasks"][:k] + [dict(t, **{key: v})] + program["tasks"][k + 1 :])
        if program["interactive"]:
            yield dict(program, interactive=False)

    def describe(self, program):
        d = {k: v for k, v in program.items() if k not in ("env", "tasks")}
        d["tasks"] = [{k: v for k, v in t.items() if v not in (None, [], False, 0)} for t in program["tasks"]]
        return d


class State:
    def __init__(self, program, rank):
        self.program = program
        self.rank = rank
        self.log = []
        self.seen = {}
        self.outs = {}
        self.left = []
        self.err = None


PROP = P()
