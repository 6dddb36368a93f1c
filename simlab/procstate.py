"""Process-wide Python state (excepthook, standard streams, loggers) kept per simulated rank.

All ranks live in one interpreter; what each would hold for itself in its own process is
saved and restored whenever the scheduler switches ranks.
"""

import io
import logging
import sys
import warnings

from . import sched


class Stream(io.TextIOBase):
    """A standard stream of one rank: buffered, and lost unless flushed before the process ends."""

    def __init__(self, state, rank, name, line_buffered, fault=None):
        self.state, self.rank, self._n = state, rank, name
        self.line = line_buffered
        self.fault = fault  # None or an exception factory for flush
        self.buf = ""
        self.seen = ""

    name = property(lambda s: f"<{s._n}>")

    def _live(self):
        return self.state.sim.aborting is None

    def writable(self):
        return True

    def write(self, s):
        self.buf += s
        if self.line and "\n" in s and self._live():
            self.seen += self.buf
            self.buf = ""
        return len(s)

    def flush(self):
        if not self._live():
            return
        self.state.sim.log("flush", self._n)
        if self.fault is not None:
            self.state.sim.fault("stream_flush_failure")
            raise self.fault()
        self.seen += self.buf
        self.buf = ""

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False


class ProcState:
    """Attach with ``ProcState(sim, n)`` in prepare; call ``restore()`` in finish."""

    def __init__(self, sim, n, stream_faults=None):
        self.sim = sim
        self.base = self._save()
        self.cur = None
        self.streams = {}
        self.states = {}
        stream_faults = stream_faults or {}
        for r in range(n):
            out = Stream(self, r, "stdout", False, stream_faults.get((r, "stdout")))
            err = Stream(self, r, "stderr", True, stream_faults.get((r, "stderr")))
            self.streams[r] = {"stdout": out, "stderr": err}
            self.states[r] = {
                "excepthook": sys.__excepthook__, "stdout": out, "stderr": err, "handlers": [], "filters": [],
                "level": logging.WARNING, "loggers": {}, "disable": 0, "lw": None, "ws": warnings.showwarning,
            }
        sim.on_switch.append(self.switch)

    @staticmethod
    def _save():
        m = logging.root.manager
        return {
            "excepthook": sys.excepthook, "stdout": sys.stdout, "stderr": sys.stderr, "handlers": logging.root.handlers,
            "filters": logging.root.filters, "level": logging.root.level, "loggers": m.loggerDict,
            "disable": m.disable, "lw": logging._warnings_showwarning, "ws": warnings.showwarning,
        }

    @staticmethod
    def _load(s):
        m = logging.root.manager
        sys.excepthook, sys.stdout, sys.stderr = s["excepthook"], s["stdout"], s["stderr"]
        logging.root.handlers, logging.root.filters = s["handlers"], s["filters"]
        m.loggerDict = s["loggers"]
        m.disable = s["disable"]
        logging.root.level = s["level"]
        logging._warnings_showwarning, warnings.showwarning = s["lw"], s["ws"]
        logging.root._cache.clear()

    def switch(self, st):
        if self.cur == st.rank:
            return
        if self.cur is not None:
            self.states[self.cur] = self._save()
        self.cur = st.rank
        self._load(self.states[st.rank])

    def restore(self):
        self._load(self.base)

    @staticmethod
    def interpreter(fn):
        """Run fn as the main program of the current rank's interpreter; -> (status, exception)."""
        try:
            fn()
        except (sched.SimAbort, sched.HarnessError, sched.Violation):
            raise
        except SystemExit as e:
            return ("exit", e)
        except BaseException as e:  # noqa: BLE001
            try:
                sys.excepthook(type(e), e, e.__traceback__)
            except (sched.SimAbort, sched.HarnessError, sched.Violation):
                raise
            except BaseException as e2:  # noqa: BLE001
                # "Error in sys.excepthook": the interpreter prints both and carries on exiting
                sys.stderr.write(f"Error in sys.excepthook:\n{type(e2).__name__}: {e2}\nOriginal exception was:\n{type(e).__name__}: {e}\n")
            return ("error", e)
        return ("ok", None)
