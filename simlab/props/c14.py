"""C14: submitting jobs: working files, exactly one submission, overwrite rules, failures, the job script itself."""

import copy
import itertools
import logging
import os
import shlex
import shutil
import subprocess
import sys

import yaml

from .. import fs as F
from .. import harness, procs
from ..sched import HarnessError, Violation, current

RANKS = []  # what the task of a pipeline run directly saw

STUB = """#!/bin/bash
{
echo "CALL"
for a in "$(basename "$0")" "$@"; do echo "ARG $a"; done
echo "CWD $PWD"
echo "OMP $OMP_NUM_THREADS"
echo "VENV $C14_VENV"
echo "STATUS $(cat "$C14_STATUS" 2>/dev/null)"
} >> "$C14_LOG"
echo output-of-$C14_ID > result.dat
echo some text
case $C14_END in
  kill) kill -9 $PPID; exit 1;;
  fail) exit 3;;
esac
exit 0
"""


class Sched(procs.Procs):
    """The batch system: a submission hands over the script as it is at that moment."""

    def __init__(self, sim, root, cfg, ledger):
        super().__init__(sim, root, cfg)
        self.ledger = ledger

    def submit(self, proc, a, system):
        if self.cfg.get("reject") and self.sim.chance(self.cfg["reject"]):
            self.sim.fault("submission_refused")
            self.injected += 1
            return 1
        self.maybe_kill(proc)
        cwd = proc.cwd or os.getcwd()
        script = a[-1] if a else "-"
        path = os.path.join(os.fspath(cwd), script)
        try:
            with F.R["open"](path) as f:
                text = f.read()
            with F.R["open"](os.path.join(os.path.dirname(path), "config.yaml")) as f:
                conf = f.read()
        except OSError:
            text = conf = None
        self.ledger.append({"system": system, "args": list(a), "path": path, "text": text, "config": conf, "by": current().rank})
        self.sim.probe("submissions")
        if self.cfg.get("lost") and self.sim.chance(self.cfg["lost"]):
            self.sim.fault("submission_answer_lost")
            self.injected += 1
            return 1
        return 0

    def cmd_sbatch(self, proc, a):
        return self.submit(proc, a, "slurm")

    def cmd_qsub(self, proc, a):
        return self.submit(proc, a, "pbs")


class P(harness.Prop):
    id = "C14"
    title = "A job is submitted exactly once, under the chosen overwrite rule, with complete files"
    rule = (
        "a run = a history of queue and template_queue calls (functions and command line) on a few job directories, by one process or two at once, with I/O errors, "
        "short writes, a batch system that refuses or loses its answer, and crashes of the submitting process at any file operation; between them accepted job scripts are really "
        "run by bash with stand-ins for srun, mpirun and module, and end well, end badly or are killed; every call is compared with a model of the directory's last job"
    )
    real = ("caput.pipeline.runner", "caput.pipeline (lint and template runs)", "bash running the generated job script")
    stub = ("sbatch and qsub (simulated batch system)", "srun, mpirun, module, caput-pipeline inside the job", "clock", "filesystem faults")
    quick_runs = 4000
    thorough_runs = 40000
    assumptions = ("two calls at once for one directory are judged only under the rule 'never'",
                   "where the output goes when the final directory exists before the job is not judged")

    def load(self):
        from caput import pipeline
        from caput.pipeline import runner
        from caput.pipeline.runner import _cli, _scheduler

        self.runner, self.cli, self.sch = runner, _cli.cli, _scheduler
        logging.getLogger("caput").setLevel(logging.ERROR)

        class Tsk(pipeline.Task):
            n = pipeline_prop(int)
            s = pipeline_prop(str)

            def setup(self):
                RANKS.append((self.n, self.s))

        pipeline.local_tasks["C14Task"] = Tsk

    # -- programs ----------------------------------------------------------------------
    def gen_job(self, rng):
        system = rng.choice(["slurm", "slurm", "pbs", "cedar", "fir", "gpc"])
        j = {"system": system, "dir": rng.choice(["j0", "j0", "sub/j1", "j 2"]), "temp": rng.choice([None, None, "tmp/t0", "tm p"]), "tspell": rng.choice([None, None, None, "var", "dot", "slash"]),
             "nodes": rng.choice([1, 2, 7]), "ompnum": rng.choice([1, 8]), "pernode": rng.choice([1, 4]), "invoke": rng.choice([None, None, "mpiexec"]),
             "invoke_args": rng.choice([None, None, "--bind-to none", "-n {mpiproc}"]), "venv": rng.choice([None, None, "venv", "ve nv"]), "mods": rng.choice([None, None, "gcc", ["gcc", "openmpi/4"]]),
             "modpath": rng.choice([None, None, "/opt/mods", ["/opt/a", "/opt/b"]]), "home": rng.random() < 0.15,
             "bad": rng.choice([None] * 34 + ["system", "key", "venv", "section", "lint", "type"])}
        return j

    def gen_step(self, rng):
        if rng.random() < 0.4:
            return {"op": "job", "end": rng.choice(["ok", "ok", "fail", "kill"]), "which": rng.randrange(4)}
        s = {"op": rng.choice(["queue"] * 6 + ["template"]), "rule": rng.choice([None, "never", "failed", "failed", "always"]), "submit": rng.random() < 0.9, "lint": rng.random() < 0.5,
             "how": rng.choice(["cli", "fn"]), "mail": rng.choice([None] * 6 + ["ok", "ok", "bad", "none"]), "profile": rng.random() < 0.3,
             "profiler": rng.choice([None, "pyinstrument", "cprofile"]), "psutil": rng.random() < 0.3, "job": rng.randrange(3), "two": rng.random() < 0.25}
        mood = rng.choice(["clean", "clean", "faults", "faults", "crash"])
        s["cfg"] = {}
        if mood == "faults":
            s["cfg"] = {rng.choice(["reject", "lost", "kill_p", "spawn_p", "err_p", "err_p"]): rng.choice([0.15, 0.4, 1.0])}
        elif mood == "crash":
            s["cfg"] = {"crash_p": rng.choice([0.05, 0.2, 0.4])}
        if s["op"] == "template":
            s["vars"] = [["dvar", [rng.choice(["v", "v", "v", "v=", "v w", "=v"]) + str(k) for k in range(rng.randrange(1, 4))]]] + ([["nvar", [str(k + 1) for k in range(rng.randrange(1, 3))]]] if rng.random() < 0.5 else [])
            s["submit"] = rng.random() < 0.6
        return s

    def generate(self, rng, i):
        jobs = [self.gen_job(rng) for _ in range(3)]
        if rng.random() < 0.6:
            jobs[1]["dir"], jobs[1]["temp"], jobs[1]["tspell"] = jobs[0]["dir"], jobs[0]["temp"], jobs[0]["tspell"]
        env = harness.gen_env(rng)
        return {"jobs": jobs, "ops": [self.gen_step(rng) for _ in range(rng.randrange(1, 9))], "env": env}

    def directed(self):
        j = {"system": "slurm", "dir": "j0", "temp": None, "nodes": 2, "ompnum": 4, "pernode": 2, "invoke": None, "invoke_args": None, "venv": None, "mods": None, "modpath": None, "home": False, "bad": None}
        q = {"op": "queue", "rule": "never", "submit": True, "lint": False, "how": "fn", "mail": None, "profile": False, "profiler": None, "psutil": False, "job": 0, "two": False, "cfg": {}}
        run = {"op": "job", "end": "ok", "which": 0}
        al = dict(q, rule="always")
        fa = dict(q, rule="failed")

        def prog(ops, **k):
            return {"jobs": [dict(j, **k)], "ops": ops, "env": dict(harness.QUIET)}

        return [prog([q, run, al, fa, run]), prog([q, run, q, fa], temp="tmp/t0"), prog([q, run], system="pbs"), prog([q, run], system="pbs", mods="gcc"), prog([q, run], dir="j 2", venv="ve nv"),
                prog([dict(q, cfg={"reject": 1.0}), q, fa]), prog([dict(q, mail="bad"), q]), prog([q], bad="venv"), prog([q], bad="system"), prog([dict(q, lint=True), run], venv="venv"),
                prog([dict(q, profile=True), run]), prog([dict(q, two=True), run]), prog([dict(q, op="template", how="cli", submit=False, vars=[["dvar", ["a", "b"]]])]),
                prog([dict(q, op="template", how="cli", vars=[["dvar", ["a", "b"]], ["nvar", ["1", "2"]]]), run, run, fa])]

    # -- the configuration files ---------------------------------------------------------------
    def config(self, j, root, tasks, direct=None):
        c = {"name": "test", "nodes": j["nodes"], "time": "0-2:30:00", "mem": "16000M", "directory": direct or os.path.join(root, j["dir"]), "ompnum": j["ompnum"], "pernode": j["pernode"],
             "account": "def-acc", "ppn": 16, "queue": "batch", "system": j["system"]}
        if j["home"] and direct is None:
            c["directory"] = "$C14_ROOT/" + j["dir"]
        spell = j.get("tspell")
        if j["temp"] or spell:
            temp = os.path.join(root, j["temp"] or j["dir"]) if direct is None else direct.replace(root, root + "/" + j["temp"]) if j["temp"] else direct
            if spell == "var":
                temp = temp.replace(root, "$C14_ROOT", 1)
            elif spell == "dot":
                temp = temp.replace(root, root + "/./x/..", 1)
            elif spell == "slash":
                temp += "/"
            c["temp_directory"] = temp
        for k in ("invoke", "invoke_args"):
            if j[k] is not None:
                c[k] = j[k]
        if j["venv"]:
            c["venv"] = os.path.join(root, "..", j["venv"])
        if j["mods"]:
            c["module_list"] = j["mods"]
        if j["modpath"]:
            c["module_path"] = j["modpath"]
        if j["bad"] == "system":
            c["system"] = "nonesuch"
        elif j["bad"] == "key":
            del c["time"]
        elif j["bad"] == "venv":
            c["venv"] = os.path.join(root, "..", "no such venv")
        elif j["bad"] == "type":
            c["nodes"] = "many"
        conf = {"cluster": c, "pipeline": {"tasks": tasks}}
        if j["bad"] == "section":
            conf["klister"] = conf.pop("cluster")
        return conf

    def tasks(self, j):
        t = [{"type": "C14Task", "params": {"n": 1, "s": "x"}}]
        if j["venv"]:
            t.append({"type": "c14venvmod.VTask"})
        if j["bad"] == "lint":
            t.append({"type": "no.such.Task"})
        return t

    def valid(self, j, s):
        """Whether a queue call with this configuration and these options must succeed."""
        if j["bad"] not in (None, "lint") or (j["bad"] == "lint" and s["lint"]):
            return False
        return s["mail"] not in ("bad", "none")

    # -- execution ----------------------------------------------------------------------------
    def execute(self, program, ctx):
        p = copy.deepcopy(program)
        if not p["jobs"]:
            return
        self.d0 = os.path.realpath(ctx.dir())
        root = self.root = os.path.join(self.d0, "fs")
        os.makedirs(root)
        os.makedirs(os.path.join(self.d0, "bin"))
        os.makedirs(os.path.join(self.d0, "in"))
        for x in ("srun", "mpirun", "mpiexec"):
            self.write(os.path.join(self.d0, "bin", x), STUB, 0o755)
        for v in ("venv", "ve nv"):
            b = os.path.join(self.d0, v)
            sp = os.path.join(b, "lib", f"python{sys.version_info.major}.{sys.version_info.minor}", "site-packages")
            os.makedirs(sp)
            os.makedirs(os.path.join(b, "bin"))
            self.write(os.path.join(b, "bin", "activate"), f"export C14_VENV='{v}'\n")
            self.write(os.path.join(sp, "c14venvmod.py"), "from caput.pipeline import Task\nclass VTask(Task):\n    pass\n")
        self.model = {}  # working directory -> what is known of its last job
        self.ledger = []
        self.pending = []  # accepted and not yet run
        os.environ["C14_ROOT"] = root
        keep = (list(sys.path), sys.prefix, sys.excepthook, os.getcwd())
        try:
            for k, s in enumerate(p["ops"]):
                if s["op"] == "job":
                    self.run_job(s, ctx)
                else:
                    j = p["jobs"][s["job"] % len(p["jobs"])]
                    (self.template if s["op"] == "template" else self.queue)(p, j, s, ctx, k)
                sys.path[:], sys.prefix, sys.excepthook = list(keep[0]), keep[1], keep[2]
                sys.modules.pop("c14venvmod", None)
        finally:
            sys.path[:], sys.prefix, sys.excepthook = keep[0], keep[1], keep[2]
            sys.modules.pop("c14venvmod", None)
            if hasattr(sys, "real_prefix"):
                del sys.real_prefix
            os.environ.pop("C14_ROOT", None)
            os.chdir(keep[3])

    def write(self, path, text, mode=0o644):
        with open(path, "w") as f:
            f.write(text)
        os.chmod(path, mode)

    def tree(self, path):
        out = {}
        for dp, dn, fn in os.walk(path):
            for x in fn:
                q = os.path.join(dp, x)
                with F.R["open"](q, "rb") as f:
                    out[os.path.relpath(q, path)] = f.read()
        return out

    def where(self, c):
        f = os.path.normpath(c["directory"].replace("$C14_ROOT", self.root))
        return os.path.normpath(c.get("temp_directory", f).replace("$C14_ROOT", self.root)), f

    # -- one call ----------------------------------------------------------------------------------
    def simulate(self, p, s, ctx, calls):
        """Make the calls at once, one per process; -> [(outcome, exception)], ledger part, errors injected, crashed."""
        n0 = len(self.ledger)
        st = {}

        def prepare(sim, world):
            cfg = {"root": self.root, "err_p": s["cfg"].get("err_p", 0.0), "err_max": 1, "err_ops": ("create", "write", "mkdir", "makedirs", "close"),
                   "crash_p": s["cfg"].get("crash_p", 0.0), "snap": os.path.join(self.d0, "snap")}
            F.attach(cfg)(sim, world)
            sim.procs = st["procs"] = Sched(sim, self.root, s["cfg"], self.ledger)

        def main(r):
            try:
                calls[r]()
            except SystemExit as e:
                return ("exit", e.code)
            except (Exception, subprocess.SubprocessError) as e:  # noqa: BLE001
                if isinstance(e, (HarnessError, Violation)):
                    raise
                return ("error", e)
            return ("ok", None)

        os.chdir(self.d0)
        run = ctx.simulate(len(calls), main, p["env"], prepare=prepare, finish=F.detach)
        crashed = run.outcome == "crash"
        if crashed:
            shutil.rmtree(self.root)
            os.rename(os.path.join(self.d0, "snap"), self.root)
            ctx.probe("crashes")
        elif run.outcome != "done":
            raise Violation("stuck", f"{s}: {run.outcome} {run.sim.detail}")
        errs = st["procs"].injected + len(run.sim.fs.errors)
        return run.results[: len(calls)], self.ledger[n0:], errs, crashed

    def opts(self, s, system):
        """(keyword arguments, command line options) common to queue and template_queue."""
        kw, cl = {}, []
        if s["rule"] is not None:
            kw["overwrite"] = s["rule"]
            cl += ["--overwrite", s["rule"]]
        if s["mail"]:
            mt = {"slurm": "END", "pbs": "ae"}[system]
            kw.update(email="me@x.org", mailtype={"ok": mt, "bad": {"slurm": "ae", "pbs": "END"}[system], "none": None}[s["mail"]])
            cl += ["--email", "me@x.org"] + ([] if kw["mailtype"] is None else ["--mailtype", kw["mailtype"]])
        return kw, cl

    def call(self, args):
        self.cli.main(args=args, prog_name="caput-pipeline", standalone_mode=False)

    def queue(self, p, j, s, ctx, k):
        conf = self.config(j, self.root, self.tasks(j))
        text = yaml.safe_dump(conf)
        path = os.path.join(self.d0, "in", f"c{k}.yaml")
        self.write(path, text)
        if "cluster" not in conf:
            conf["cluster"] = conf["klister"]
        c = conf["cluster"]
        system = {"cedar": "slurm", "fir": "slurm", "gpc": "pbs"}.get(j["system"], j["system"])
        two = s["two"] and s["rule"] in (None, "never")
        s = dict(s, lint=s["lint"] and not two)
        kw, cl = self.opts(s, system)
        cl += ["--lint" if s["lint"] else "--nolint", "--submit" if s["submit"] else "--nosubmit"]
        kw.update(lint=s["lint"], submit=s["submit"])
        if s["profile"]:
            cl += ["--profile"]
            kw["profile"] = True
        if s["profiler"]:
            cl += ["--profiler", s["profiler"]]
            kw["profiler"] = s["profiler"]
        if s["psutil"]:
            cl += ["--psutil"]
            kw["psutil"] = True
        fn = (lambda: self.call(["queue", path, *cl])) if s["how"] == "cli" else (lambda: self.runner.queue(path, **kw))
        self.one(p, j, s, ctx, c, system, text, [fn, fn] if two else [fn], f"queue {j} with {s}")

    def state(self, wd, fd):
        for d in (wd, fd):
            if F.R["exists"](os.path.join(d, "job")):
                return self.model.get(d, {"state": "unknown"}), True
        return {"state": "none"}, False

    def decide(self, rule, m, exists):
        """What the rule says: submit, skip or either."""
        if not exists or rule == "always":
            return "submit"
        if rule in (None, "never"):
            return "skip"
        return {"finished": "skip", "unknown": "either"}.get(m["state"], "submit")

    def one(self, p, j, s, ctx, c, system, text, calls, what):
        wd, fd = self.where(c)
        m, exists = self.state(wd, fd)
        verdict = self.decide(s["rule"], m, exists)
        ok = self.valid(j, s)
        before = (self.tree(wd), self.tree(fd))
        res, subs, errs, crashed = self.simulate(p, s, ctx, calls)
        what += f"; previous job {m['state']}, directory {'exists' if exists else 'is new'}"
        self.judge_subs(subs, c, wd, fd, system, text, s, what)
        if crashed or errs:
            if len(subs) > len(calls):
                raise Violation("submitted-twice", f"{what}: {len(subs)} submissions")
            if verdict == "skip" and (subs or (self.tree(wd), self.tree(fd)) != before):
                raise Violation("rule", f"{what}: the rule forbids it and the job was touched ({len(subs)} submissions)")
            if not crashed and len(calls) == 1 and verdict == "submit" and res[0][0] == "ok":
                raise Violation("not-reported", f"{what}: a step failed and no error was raised")
            ctx.probe("failed_calls")
            if verdict != "skip":
                self.model[wd] = {"state": "unknown"}
                self.accept(subs, c, wd, fd, system, s, j)
            return
        good = [r for r in res if r[0] == "ok"]
        if verdict == "skip":
            if subs:
                raise Violation("rule", f"{what}: submitted although the rule is {s['rule'] or 'never'}")
            if (self.tree(wd), self.tree(fd)) != before:
                raise Violation("rule", f"{what}: files of a job that must be kept were changed")
            if ok and len(good) < len(res):
                raise Violation("exception", f"{what}: {self.exc(res)}")
            ctx.probe("skipped")
            return
        if not ok:
            if subs or (good and verdict != "either"):
                raise Violation("not-refused", f"{what}: must be refused, but {len(good)} calls returned and {len(subs)} jobs were submitted")
            if F.R["exists"](os.path.join(wd, "job")) and not exists:
                raise Violation("left-over", f"{what}: refused ({self.exc(res)}), yet a job directory is left in the way of later calls")
            if exists and (self.tree(wd), self.tree(fd)) != before and verdict != "either":
                raise Violation("left-over", f"{what}: refused ({self.exc(res)}), yet the existing job was changed")
            if j["bad"] == "system" and s["mail"] in (None, "ok") and "nonesuch" not in str(res[0][1]):
                raise Violation("unclear", f"{what}: refused without naming the unknown system: {self.exc(res)}")
            ctx.probe("refused")
            return
        if verdict == "either" and not subs:
            return
        want = 1 if s["submit"] else 0
        if not good:
            raise Violation("exception", f"{what}: {self.exc(res)}")
        if len(subs) != want:
            raise Violation("submissions", f"{what}: {len(subs)} submissions, expected {want}; results {res}")
        jobdir = os.path.join(wd, "job")
        if not F.R["exists"](os.path.join(jobdir, "jobscript.sh")) or self.tree(jobdir).get("config.yaml") != text.encode():
            raise Violation("files", f"{what}: files in the job directory: {sorted(self.tree(jobdir))}, or another configuration")
        self.model[wd] = {"state": "prepared"}
        self.accept(subs, c, wd, fd, system, s, j)
        ctx.probe("queued")
        if len(calls) > 1:
            ctx.probe("two_at_once")

    def exc(self, res):
        return [f"{type(e).__name__}: {e}"[:200] if k == "error" else k for k, e in res]

    def accept(self, subs, c, wd, fd, system, s, j):
        for x in subs:
            self.model[wd] = {"state": "pending", "id": len(self.pending)}
            self.pending.append(dict(x, c=c, wd=wd, fd=fd, s=s, j=j, ran=False, id=len(self.pending)))

    def judge_subs(self, subs, c, wd, fd, system, text, s, what):
        for x in subs:
            if not s["submit"]:
                raise Violation("submissions", f"{what}: submitted although it should not be")
            if x["system"] != system:
                raise Violation("system", f"{what}: submitted to {x['system']}")
            if x["path"] != os.path.join(wd, "job", "jobscript.sh"):
                raise Violation("script", f"{what}: submitted {x['path']}")
            if x["config"] is None or x["config"] != text:
                raise Violation("config", f"{what}: at the time of submission the job's configuration is {str(x['config'])[:80]!r}")
            e = self.judge_script(x["text"], c, system)
            if e:
                raise Violation("script", f"{what}: {e}")
            args = x["args"][:-1]
            exp = []
            if s["mail"] == "ok":
                exp = {"slurm": ["--mail-user=me@x.org", "--mail-type=END"], "pbs": ["-M", "me@x.org", "-m", "ae"]}[system]
            if sorted(args) != sorted(exp):
                raise Violation("mail", f"{what}: submission options {args}, expected {exp}")

    def judge_script(self, text, c, system):
        if text is None or not text.startswith("#!") or not text.rstrip().endswith("fi"):
            return f"the script is not complete when submitted: {str(text)[-60:]!r}"
        mark = {"slurm": "#SBATCH", "pbs": "#PBS"}[system]
        d = []
        for ln in text.splitlines():
            if ln.startswith(mark):
                d += shlex.split(ln[len(mark):], comments=True)
        if system == "slurm":
            got = dict(x.lstrip("-").split("=", 1) for x in d)
            exp = {"account": "def-acc", "nodes": str(c["nodes"]), "ntasks-per-node": str(c["pernode"]), "cpus-per-task": str(c["ompnum"]), "mem": "16000M", "time": "0-2:30:00", "job-name": "test"}
            bad = {k: got.get(k) for k in exp if got.get(k) != exp[k]}
        else:
            exp = [("-l", f"nodes={c['nodes']}:ppn=16"), ("-q", "batch"), ("-l", "walltime=0-2:30:00"), ("-N", "test")]
            pairs = list(zip(d, d[1:]))
            bad = [x for x in exp if x not in pairs]
        return f"directives {d}: wrong {bad}" if bad else None

    # -- templates --------------------------------------------------------------------------------------
    def template(self, p, j, s, ctx, k):
        s = dict(s, lint=True, profile=False, profiler=None, psutil=False)
        names = [v[0] for v in s["vars"]]
        tasks = [{"type": "C14Task", "params": {"n": "{nvar}" if "nvar" in names else 1, "s": "{dvar}"}}]
        if j["venv"]:
            tasks.append({"type": "c14venvmod.VTask"})
        if j["bad"] == "lint":
            tasks.append({"type": "no.such.Task"})
        j = dict(j, home=False, invoke_args=None)
        direct = os.path.join(self.root, "{dvar}" + ("_{nvar}" if "nvar" in names else ""))
        conf = self.config(j, self.root, tasks, direct)
        tpl = yaml.safe_dump(conf).replace("'{nvar}'", "{nvar}")
        path = os.path.join(self.d0, "in", f"t{k}.yaml")
        self.write(path, tpl)
        combos = [dict(zip(names, v)) for v in itertools.product(*(v[1] for v in s["vars"]))]
        var = [f"{n}={','.join(v)}" for n, v in s["vars"]]
        system = {"cedar": "slurm", "fir": "slurm", "gpc": "pbs"}.get(j["system"], j["system"])
        what = f"template {j} with {s}"
        kw, cl = self.opts(s, system)
        for v in var:
            cl += ["--var", v]
        if not s["submit"]:
            if j["bad"] == "lint" or j["venv"]:
                return
            del RANKS[:]
            fn = lambda: self.call(["template-run", path, *cl])  # noqa: E731
            res, subs, errs, crashed = self.simulate(p, dict(s, cfg={}), ctx, [fn])
            sys.excepthook = sys.__excepthook__
            if res[0][0] != "ok":
                raise Violation("exception", f"{what}: {self.exc(res)}")
            got, exp = list(RANKS), [(int(v.get("nvar", 1)), v["dvar"]) for v in combos]
            if got != exp or subs:
                raise Violation("template", f"{what}: ran {got}, expected {exp}; {len(subs)} submissions")
            ctx.probe("template_runs")
            return
        kw.setdefault("overwrite", "never")
        fn = (lambda: self.call(["template-run", path, "--submit", *cl])) if s["how"] == "cli" else (lambda: self.runner.template_queue(path, var, **kw))
        texts = [tpl.format(**v) for v in combos]
        confs = [yaml.safe_load(t) for t in texts]
        cs = [x.get("cluster") or x["klister"] for x in confs]
        dirs = [self.where(c) for c in cs]
        befores = [(self.tree(a), self.tree(b)) for a, b in dirs]
        verdicts = []
        for a, b in dirs:
            m, ex = self.state(a, b)
            verdicts.append(self.decide(s["rule"], m, ex))
        ok = self.valid(j, s)
        res, subs, errs, crashed = self.simulate(p, s, ctx, [fn])
        of = {}
        for x in subs:
            i = next((i for i, d in enumerate(dirs) if x["path"].startswith(d[0] + "/")), None)
            if i is None or i in of:
                raise Violation("submissions", f"{what}: submitted {[y['path'] for y in subs]}")
            of[i] = x
            self.judge_subs([x], cs[i], *dirs[i], system, texts[i], s, what)
        for i, v in enumerate(verdicts):
            if v == "skip" and (i in of or (self.tree(dirs[i][0]), self.tree(dirs[i][1])) != befores[i]):
                raise Violation("rule", f"{what}: {combos[i]} must be left alone and was touched")
            if v != "skip" and not ok and i in of:
                raise Violation("not-refused", f"{what}: {combos[i]} submitted")
        clean = not (errs or crashed)
        if not ok:
            if clean and all(v == "submit" for v in verdicts) and res[0][0] == "ok":
                raise Violation("not-refused", f"{what}: no error")
        elif clean:
            if res[0][0] != "ok":
                raise Violation("exception", f"{what}: {self.exc(res)}")
            for i, v in enumerate(verdicts):
                if v == "submit" and i not in of:
                    raise Violation("submissions", f"{what}: {combos[i]} was not submitted")
            ctx.probe("template_queues")
        elif errs and not crashed and res[0][0] == "ok" and all(v == "submit" for v in verdicts):
            raise Violation("not-reported", f"{what}: a step failed and no error was raised")
        for i, v in enumerate(verdicts):
            if v == "skip":
                continue
            if not clean or (not ok and (self.tree(dirs[i][0]), self.tree(dirs[i][1])) != befores[i]):
                self.model[dirs[i][0]] = {"state": "unknown"}
            if i in of:
                self.accept([of[i]], cs[i], *dirs[i], system, s, j)

    # -- the job ------------------------------------------------------------------------------------------
    def run_job(self, s, ctx):
        todo = [x for x in self.pending if not x["ran"]]
        if not todo:
            return
        x = todo[s["which"] % len(todo)]
        x["ran"] = True
        wd, fd, c, q = x["wd"], x["fd"], x["c"], x["s"]
        end = s["end"]
        if not F.R["exists"](x["path"]):
            return  # its directory was moved away by another job
        if wd != fd and F.R["exists"](fd):
            end = "fail" if end == "ok" else end  # where the output would go is not judged
        log, script = os.path.join(self.d0, "log"), os.path.join(self.d0, "spool.sh")
        self.write(log, "", 0o666)
        self.write(script, x["text"], 0o755)
        status = os.path.join(wd, "job", "STATUS")
        env = {"PATH": os.path.join(self.d0, "bin") + ":/usr/bin:/bin", "C14_LOG": log, "C14_ID": str(x["id"]), "C14_END": end, "SLURM_CPUS_PER_TASK": str(c["ompnum"]), "C14_STATUS": status,
               "BASH_FUNC_module%%": '() { echo "MODULE $*" >> "$C14_LOG"; }', "HOME": self.d0, "C14_VENV": ""}
        drop = {}
        if os.geteuid() == 0:
            drop = {"user": 65534, "group": 65534, "extra_groups": []}
            a = self.d0
            while a not in ("/", "/dev/shm", "/tmp"):
                os.chmod(a, 0o755)
                a = os.path.dirname(a)
            for dp, dn, fn in os.walk(self.root):
                os.chmod(dp, 0o777)
                for f in fn:
                    os.chmod(os.path.join(dp, f), 0o666)
        before = self.tree(wd)
        run = lambda **d: subprocess.run(["/bin/bash", script], cwd=os.path.join(wd, "job"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, **d)  # noqa: E731
        try:
            r = run(**drop)
        except PermissionError:
            r = run()  # no right to become another user here
        ctx.probe("jobs_" + end)
        with open(log) as f:
            lines = f.read().splitlines()
        what = f"job of {x['j']} queued with {q}, ending {end}"
        mods = [ln[7:] for ln in lines if ln.startswith("MODULE ")]
        lst = lambda v: [] if v is None else [v] if isinstance(v, str) else v  # noqa: E731
        exp = [f"use {v}" for v in lst(c.get("module_path"))] + [f"load {v}" for v in lst(c.get("module_list"))]
        exp = ["--force purge"] + exp if exp else []
        if mods != exp:
            raise Violation("modules", f"{what}: modules {mods}, expected {exp}")
        if lines.count("CALL") != 1:
            raise Violation("job", f"{what}: the pipeline was started {lines.count('CALL')} times (exit {r.returncode}, {r.stdout[-200:]!r})")
        get = {k: v for k, _, v in (ln.partition(" ") for ln in lines) if k in ("CWD", "OMP", "VENV", "STATUS")}
        args = [ln[4:] for ln in lines if ln.startswith("ARG ")]
        e = self.judge_args(args, x, c, wd, q)
        if e:
            raise Violation("command", f"{what}: {e}: {args}")
        venv = x["j"]["venv"] or ""
        if (get["CWD"], get["OMP"], get["VENV"]) != (wd, str(c["ompnum"]), venv):
            raise Violation("environment", f"{what}: the pipeline runs with {get}")
        if get["STATUS"].strip() != "RUNNING":
            raise Violation("status", f"{what}: while it runs its status is {get['STATUS']!r}")
        final = os.path.join(fd if end == "ok" else wd)
        after = self.tree(final)
        sname = os.path.join("job", "STATUS")
        want = {"ok": "FINISHED", "fail": "CRASHED", "kill": "RUNNING"}[end]
        if after.get(sname, b"").decode().strip() != want:
            raise Violation("status", f"{what}: at the end its status is {after.get(sname)}, expected {want}")
        if (r.returncode == 0) != (end == "ok"):
            raise Violation("status", f"{what}: the script exits {r.returncode}")
        if after.get("result.dat") != f"output-of-{x['id']}\n".encode():
            raise Violation("output", f"{what}: no output in {final}: {sorted(after)}")
        if "some text" not in after.get(os.path.join("job", "jobout.log"), b"").decode():
            raise Violation("output", f"{what}: the log is {after.get(os.path.join('job', 'jobout.log'))}")
        lost = [k for k in before if k not in after]
        if lost or (wd != fd and end == "ok" and F.R["exists"](wd)):
            raise Violation("output", f"{what}: lost {lost}, or the working directory was not moved")
        last = self.model.get(wd, {})
        if last.get("id") == x["id"] and last.get("state") == "pending":
            self.model[wd]["state"] = {"ok": "finished", "fail": "failed", "kill": "killed"}[end]
        elif last.get("state") in ("pending", "prepared", "finished", "failed", "killed"):
            self.model[wd] = dict(last, state="unknown")  # an older job of the same directory ran after the newer call
        if wd != fd and end == "ok":
            self.model[fd] = self.model.pop(wd, {"state": "unknown"})

    def judge_args(self, args, x, c, wd, q):
        inv = c.get("invoke") or {"slurm": "srun", "pbs": "mpirun"}[x["system"]]
        if args[0] != inv:
            return f"started with {args[0]}, expected {inv}"
        mp = c["nodes"] * c["pernode"]
        default = {"slurm": "", "pbs": f"-np {mp} -npernode {c['pernode']} -bind-to none"}[x["system"]]
        ia = c.get("invoke_args")
        ia = default if ia is None else ia.format(mpiproc=mp)
        if "caput-pipeline" not in args:
            return "caput-pipeline is not started"
        i = args.index("caput-pipeline")
        if args[1:i] != ia.split():
            return f"arguments {args[1:i]} of {inv}, expected {ia.split()}"
        if args[i + 1] != "run":
            return "not run"
        rest = args[i + 2:]
        path = os.path.join(wd, "job", "config.yaml")
        if path not in rest:
            return f"{path} is not run"
        import click

        probe = os.path.join(self.d0, "spool.sh")
        try:
            v = self.cli.commands["run"].make_context("run", [probe if a == path else a for a in rest]).params
        except click.ClickException as e:
            return f"refused by the command line: {e.message}"
        if v["configfile"] != probe or v["profile"] != q["profile"] or v["psutil"] != q["psutil"] or not v["mpi_abort"]:
            return f"runs with {v}"
        if q["profile"] and str(v["profiler"]).lower() != (q["profiler"] or "cprofile"):
            return f"runs with the profiler {v['profiler']}"
        return None


def pipeline_prop(t):
    from caput import config

    return config.Property(default=None, proptype=t)


PROP = P()
