"""Simulated child processes: subprocess.Popen (and run, call, ... built on it), the shell, 7z, rm, mv.

A child is a simulated thread on its parent's node that goes on while its parent does something
else; its file operations go through the simulated filesystem, so they are interleaved, can fail and
can be cut off by a crash.  Faults are drawn per command: error exits before, during or after the
work, being killed, running for long, printing more than a pipe holds, and failing to start at all.
Nothing outside the scratch directory is ever touched: a command naming such a path is a harness error.
"""

import io
import os
import platform
import shlex
import shutil
import socket
import subprocess
import zipfile

from . import fs as F
from . import sched

PIPE_SIZE = 65536
_real = {}


class Killed(Exception):
    """The child process received SIGKILL."""


class Pipe:
    def __init__(self, proc, text):
        self.proc, self.text = proc, text
        self.data = b""
        self.drained = False
        self.closed = False

    def read(self, n=-1):
        self.drained = True
        sim = sched.active()
        if self.proc.state != "done":
            sim.block(lambda: self.proc.state == "done", "read from a child process")
        d, self.data = self.data, b""
        return d.decode() if self.text else d

    def readlines(self):
        return self.read().splitlines(True)

    def readline(self):
        d = self.readlines()
        return d[0] if d else ("" if self.text else b"")

    def __iter__(self):
        return iter(self.readlines())

    def fileno(self):
        return 99

    def close(self):
        self.closed = True
        self.drained = True


class SimPopen:
    """What subprocess.Popen returns inside a simulation."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, text=None, encoding=None,
                 errors=None, **kw):
        sim = sched.active()
        procs = getattr(sim, "procs", None)
        if procs is None:
            raise sched.HarnessError(f"no simulated processes here: {args}")
        sim.step()
        procs.spawned += 1
        if procs.cfg.get("spawn_p") and sim.chance(procs.cfg["spawn_p"]):
            sim.fault("fork_failure")
            procs.injected += 1
            procs.failed.append(("fork", args))
            raise OSError(11, "Resource temporarily unavailable (injected)")
        self.args = args
        self.shell = shell
        self.cwd = cwd
        self.pid = 5000 + procs.spawned
        self.state = "running"
        self._rc = None
        self.returncode = None
        self._kill = False
        txt = bool(text or universal_newlines or encoding)
        self.stdin = None
        self.stdout = Pipe(self, txt) if stdout == subprocess.PIPE else None
        self.stderr = Pipe(self, txt) if stderr == subprocess.PIPE else None
        procs.all.append(self)
        if isinstance(args, (str, bytes)):
            cmds = parse(args.decode() if isinstance(args, bytes) else args) if shell else [("", [str(args)])]
        elif shell:
            cmds = parse(str(args[0]))
        else:
            cmds = [("", [os.fspath(a) for a in args])]
        st = sched.current()
        sim.spawn(lambda: self._main(sim, procs, cmds), rank=st.rank, name=f"job{procs.spawned}@{st.rank}")
        sim.step()

    def _main(self, sim, procs, cmds):
        rc = 0
        try:
            if sim.chance(procs.cfg.get("slow_p", 0.3)):
                sim.fault("slow_job")
                sim.sleep((0.01, 1.0, 30.0, 500.0)[sim.pick(4)])
            for op, argv in cmds:
                if (op == "&&" and rc != 0) or (op == "||" and rc == 0):
                    continue
                rc = procs.execute(self, argv)
                if argv[:1] == ["exit"]:
                    break
        except Killed:
            rc = -9 if len(cmds) == 1 or not self.shell else (137 if sim.chance(0.5) else -9)
            sim.fault("job_killed")
        big = procs.cfg.get("big_p", 0) and sim.chance(procs.cfg["big_p"])
        for p in (self.stdout, self.stderr):
            if p is None:
                continue
            p.data += b"." * (PIPE_SIZE * 2 if big else 40)
            if big and not p.drained:
                sim.fault("full_pipe")
                sim.block(lambda p=p: p.drained, "writing to a full pipe nobody reads")
        self._rc = rc
        self.state = "done"
        sim.log("job-exit", rc)

    # -- the parent's side ---------------------------------------------------------
    def poll(self):
        sched.active().step()
        if self.state == "done":
            self.returncode = self._rc
        return self.returncode

    def wait(self, timeout=None):
        sim = sched.active()
        if self.state != "done":
            if not sim.block(lambda: self.state == "done", f"wait for {self.args}", timeout=timeout):
                raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        for p in (self.stdout, self.stderr):
            if p is not None:
                p.drained = True
        self.wait(timeout)
        return tuple(p.read() if p is not None else None for p in (self.stdout, self.stderr))

    def kill(self):
        self._kill = True

    terminate = kill

    def send_signal(self, sig):
        self._kill = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in (self.stdout, self.stderr):
            if p is not None:
                p.close()
        self.wait()


def parse(cmd):
    """A command line -> [(operator before it, argv)] (&&, ||, ; and redirections only)."""
    lx = shlex.shlex(cmd, posix=True, punctuation_chars=True)
    lx.whitespace_split = True
    lx.commenters = ""
    try:
        toks = list(lx)
    except ValueError:
        return [("", ["false"])]  # unbalanced quotes: the shell refuses the line
    out, op, cur = [], "", []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in ("&&", "||", ";", "&", "\n"):
            out.append((op, cur))
            op, cur = t, []
        elif t in (">", ">>", "<"):
            i += 1
            if cur and cur[-1] in ("1", "2"):
                cur.pop()
        elif t and all(c in "();<>|&" for c in t):
            return [("", ["false"])]  # a syntax error (or something this shell does not know)
        else:
            cur.append(t)
        i += 1
    out.append((op, cur))
    return [(o, c) for o, c in out if c]


class Procs:
    """The processes of one simulation; attach as ``sim.procs``."""

    def __init__(self, sim, root, cfg=None):
        self.sim, self.root, self.cfg = sim, os.path.realpath(root), cfg or {}
        self.all = []
        self.spawned = 0
        self.injected = 0  # failures put in by the simulation
        self.failed = []  # (what, argv) of every command that did not succeed
        self.archived = []  # archives written, in order of starting

    def inside(self, p):
        a = os.path.normpath(os.path.join(self.root, p))
        if not (a == self.root or a.startswith(self.root + "/")) or a == self.root:
            raise sched.HarnessError(f"a command names {p}, outside the scratch directory")
        return a

    def execute(self, proc, argv):
        self.sim.step()
        if proc._kill:
            raise Killed
        name = os.path.basename(argv[0])
        f = getattr(self, "cmd_" + {"7z": "7z", "7za": "7z", "7zz": "7z", "[": "test", ":": "true"}.get(name, name), None)
        if f is None:
            if not F.R["exists"](argv[0]):
                self.failed.append(("not found", argv))
                return 127
            raise sched.HarnessError(f"a command this simulation does not know: {argv}")
        try:
            rc = f(proc, argv[1:])
        except Killed:
            self.failed.append(("killed", argv))
            raise
        except OSError as e:
            self.sim.log("job-error", type(e).__name__)
            rc = 2 if name.startswith("7z") else 1
        if rc != 0:
            self.failed.append((rc, argv))
        return rc

    def maybe_kill(self, proc):
        if proc._kill or self.sim.chance(self.cfg.get("kill_p", 0)):
            self.injected += 1
            raise Killed

    def maybe_fail(self, p="fail_p"):
        if self.sim.chance(self.cfg.get(p, 0)):
            self.sim.fault("job_error_exit")
            self.injected += 1
            return True
        return False

    def cmd_true(self, proc, a):
        return 0

    cmd_echo = cmd_true
    cmd_sync = cmd_true
    cmd_set = cmd_true

    def cmd_nice(self, proc, a):
        while a and a[0].startswith("-"):
            a = a[2:] if a[0] == "-n" else a[1:]
        return self.execute(proc, a)

    cmd_exec = cmd_nice
    cmd_nohup = cmd_nice

    def cmd_false(self, proc, a):
        return 1

    def cmd_exit(self, proc, a):
        return int(a[0]) if a else 0

    def cmd_sleep(self, proc, a):
        self.sim.sleep(float(a[0]))
        return 0

    def cmd_test(self, proc, a):
        a = [x for x in a if x != "]"]
        neg = a[:1] == ["!"]
        a = a[1:] if neg else a
        p = self.inside(a[-1])
        ok = {"-e": os.path.exists, "-f": os.path.isfile, "-d": os.path.isdir, "-s": os.path.exists, "-r": os.path.exists}[a[0]](p)
        return int(ok == neg)

    def cmd_mv(self, proc, a):
        a = [self.inside(x) for x in a if not x.startswith("-")]
        if self.maybe_fail():
            return 1
        self.maybe_kill(proc)
        os.replace(a[0], a[1])
        return 0

    def cmd_rm(self, proc, a):
        flags = "".join(x for x in a if x.startswith("-") and x != "--")
        rc = 0
        for x in a:
            if x.startswith("-"):
                continue
            p = self.inside(x)
            if not os.path.exists(p):
                rc = rc if "f" in flags else 1
            elif os.path.isdir(p):
                if "r" not in flags and "R" not in flags:
                    rc = 1
                elif not self._rmtree(proc, p):
                    rc = 1
            else:
                os.unlink(p)
        return rc

    cmd_rmdir = cmd_rm

    def _rmtree(self, proc, p):
        ok = True
        for e in sorted(F.R["listdir"](p)):
            self.maybe_kill(proc)
            q = os.path.join(p, e)
            if F.R["isdir"](q):
                ok &= self._rmtree(proc, q)
            elif self.maybe_fail("rm_fail_p"):
                ok = False
            else:
                try:
                    os.unlink(q)
                except OSError:
                    ok = False
        if ok:
            os.rmdir(p)
        return ok

    def cmd_7z(self, proc, a):
        cmd, sw, names = a[0], [x for x in a[1:] if x.startswith("-")], [x for x in a[1:] if not x.startswith("-")]
        if not names:
            return 7
        dest = self.inside(names[0])
        if cmd == "t":
            return 0 if zip_entries(dest) is not None else 2
        if cmd not in ("a", "u"):
            raise sched.HarnessError(f"7z {a}")
        if any(x.startswith("-t") and x != "-tzip" for x in sw):
            return 7
        if "." not in os.path.basename(dest):
            dest += ".zip"
        self.archived.append(dest)
        if self.maybe_fail():
            return (1, 2, 7, 8, 255)[self.sim.pick(5)]
        old = {}
        if os.path.exists(dest):
            old = zip_entries(dest)
            if old is None:
                return 2  # not an archive
        entries = dict(old)
        rc = 0
        target = dest + ".tmp" if old or self.sim.chance(0.5) else dest
        with open(target, "wb") as out:
            for src in names[1:]:
                base = self.inside(src)
                self.maybe_kill(proc)
                if src.endswith("/*"):
                    base, src = os.path.dirname(base), src[:-1] + "."
                if not os.path.exists(base):
                    rc = 1
                    continue
                prefix = "" if src.endswith("/.") else os.path.basename(base) + "/"
                if not os.path.isdir(base):
                    with open(base, "rb") as f:
                        entries[os.path.basename(base)] = f.read()
                    continue
                for dp, dn, fn in os.walk(base):
                    dn.sort()
                    for x in sorted(fn):
                        self.maybe_kill(proc)
                        q = os.path.join(dp, x)
                        with open(q, "rb") as f:
                            entries[prefix + os.path.relpath(q, base)] = f.read()
            b = io.BytesIO()
            with zipfile.ZipFile(b, "w") as z:
                for k, v in entries.items():
                    z.writestr(zipfile.ZipInfo(k), v)
            b = b.getvalue()
            m = len(b) // 3 + 1
            for s in range(0, len(b), m):
                self.maybe_kill(proc)
                if s and self.maybe_fail():
                    return 2
                out.write(b[s:s + m])
                out.flush()
        if target != dest:
            self.maybe_kill(proc)
            os.replace(target, dest)
        if self.maybe_fail():
            return 1
        return rc


def zip_entries(path):
    """The files in an archive, or None if it is not a complete archive."""
    try:
        with F.R["open"](path, "rb") as f:
            b = io.BytesIO(f.read())
        with zipfile.ZipFile(b) as z:
            if z.testzip() is not None:
                return None
            return {i.filename: z.read(i) for i in z.infolist() if not i.is_dir()}
    except (OSError, zipfile.BadZipFile, KeyError, EOFError):
        return None


def _popen(*a, **k):
    if sched.active() is None:
        return _real["Popen"](*a, **k)
    return SimPopen(*a, **k)


class _PopenMeta(type):
    def __call__(cls, *a, **k):
        return _popen(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (SimPopen, _real["Popen"]))


class Popen(metaclass=_PopenMeta):
    """Stands for subprocess.Popen."""

    def __class_getitem__(cls, x):
        return cls


def _host(real):
    def f():
        sim = sched.active()
        names = getattr(sim, "hostnames", None) if sim is not None else None
        return real() if names is None else names[sched.current().rank]

    return f


def install():
    if _real:
        return
    _real.update(Popen=subprocess.Popen, which=shutil.which, system=os.system)
    subprocess.Popen = Popen

    def which(cmd, *a, **k):
        sim = sched.active()
        tools = getattr(sim, "tools", None) if sim is not None else None
        return _real["which"](cmd, *a, **k) if tools is None else tools.get(cmd)

    def system(cmd):
        if sched.active() is None:
            return _real["system"](cmd)
        rc = SimPopen(cmd, shell=True).wait()
        return -rc if rc < 0 else rc << 8

    shutil.which = which
    os.system = system
    socket.gethostname = _host(socket.gethostname)
    platform.node = _host(platform.node)
