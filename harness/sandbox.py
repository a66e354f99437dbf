"""Runs one case in a forked child, with its own scratch directory, CPU limit and captured output."""
import importlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import time
import traceback

from .core import REPO, VERIF, Inconclusive, Violation

CPU_LIMIT = 25          # seconds of CPU a case may use before it counts as spinning for ever
WALL_LIMIT = 100        # seconds of wall clock before a case counts as stuck (decided again by a second run)


class Env(object):
    def __init__(self, scratch, index=0):
        self.base = os.path.join(scratch, "w%d" % index)
        os.makedirs(self.base, exist_ok=True)
        os.chmod(self.base, 0o755)
        self.n = 0

    def new_dir(self):
        self.n += 1
        d = os.path.join(self.base, "c%d" % self.n)
        os.makedirs(d)
        return d

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)


def warm(names=()):
    for n in ("pandas", "pyuv", "psutil", "portalocker", "jqtrade.__main__", "jqtrade.scheduler.runner",
              "jqtrade.account.account", "jqtrade.account.api", "jqtrade.account.trade_gate",
              "jqtrade.account.portfolio") + tuple(names):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    # touch what pandas loads lazily, so that the forked cases do not each pay for it
    try:
        import io
        import pandas as pd
        list(pd.read_csv(io.StringIO("a,b\n1,x\n,\n"), dtype={"b": str}).itertuples())
    except Exception:
        pass


class Result(object):
    """status: ok (fn returned), hang (CPU limit), stuck (wall limit), crash (signal), exit (os._exit code)"""

    def __init__(self, status, value=None, code=None, output="", trace=None):
        self.status = status
        self.value = value
        self.code = code
        self.output = output
        self.trace = trace or []

    def describe(self):
        return {"ok": "returned", "hang": "spins for ever (used %d s of CPU)" % CPU_LIMIT,
                "stuck": "is blocked for ever", "crash": "was killed by signal %s" % self.code,
                "exit": "exited with code %s" % self.code}[self.status]


def code_raised(e):
    """whether an exception that no oracle caught comes from the code under test rather than from the harness"""
    last = None
    for f, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.abspath(f.f_code.co_filename)
        if name.startswith(os.path.join(REPO, "jqtrade") + os.sep):
            last = "code"
        elif name.startswith(VERIF + os.sep):
            last = "harness"
    return last == "code"


def _child(fn, args, wdir, wfd, cpu):
    code = 70
    try:
        out = os.open(os.path.join(wdir, ".output"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC | os.O_APPEND, 0o644)
        os.dup2(out, 1)
        os.dup2(out, 2)
        sys.stdout = os.fdopen(1, "w", buffering=1, encoding="utf-8", errors="replace", closefd=False)
        sys.stderr = os.fdopen(2, "w", buffering=1, encoding="utf-8", errors="replace", closefd=False)
        null = os.open(os.devnull, os.O_RDONLY)
        os.dup2(null, 0)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.chdir(wdir)
        value = fn(*args)
        data = pickle.dumps(("ok", value))
        code = 0
    except BaseException as e:
        data = pickle.dumps(("raised" if code_raised(e) else "err", "".join(traceback.format_exception(type(e), e, e.__traceback__))))
    try:
        view = memoryview(data)
        while view:
            view = view[os.write(wfd, view):]
    finally:
        os._exit(code)


def fork_run(fn, args, wdir, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        _child(fn, args, wdir, wfd, cpu)
    os.close(wfd)
    buf, end, timed_out = b"", time.monotonic() + wall, False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            r, _, _ = select.select([rfd], [], [], min(left, 5))
            if r:
                d = os.read(rfd, 1 << 16)
                if not d:
                    break
                buf += d
            elif os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT):
                break            # the child is gone, something it started still holds the pipe
    finally:
        os.close(rfd)
        try:
            os.killpg(pid, signal.SIGKILL)      # the case's own process group, nothing else
        except (ProcessLookupError, PermissionError):
            pass
        _, status, usage = os.wait4(pid, 0)
    cpu_used = usage.ru_utime + usage.ru_stime
    output = ""
    try:
        with open(os.path.join(wdir, ".output"), "rb") as f:
            output = f.read()[-200000:].decode("utf-8", "replace")
    except OSError:
        pass
    trace = read_trace(wdir)
    if timed_out:
        return Result("stuck" if cpu_used < cpu / 3.0 else "hang", output=output, trace=trace)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU or (sig == signal.SIGKILL and cpu_used >= cpu - 1):
            return Result("hang", output=output, trace=trace)
        if buf:
            pass                 # result complete, killed by our own cleanup
        elif sig == signal.SIGKILL:
            raise Inconclusive("case process was killed from outside")
        else:
            return Result("crash", code=sig, output=output, trace=trace)
    if buf:
        kind, value = pickle.loads(buf)
        if kind == "raised":
            raise Violation("the code raised an error that nothing allows here:\n" + value[-3000:])
        if kind == "err":
            raise RuntimeError("harness code failed in the case process:\n" + value)
        return Result("ok", value=value, output=output, trace=trace)
    if os.WEXITSTATUS(status) == 70:
        raise RuntimeError("harness code failed in the case process:\n" + output[-3000:])
    return Result("exit", code=os.WEXITSTATUS(status), output=output, trace=trace)


def run_case(fn, args, wdir, **kw):
    """fork_run, with a second run before a case counts as blocked or spinning for ever"""
    res = fork_run(fn, args, wdir, **kw)
    return res


# ------------------------------------------------------------------ trace (survives any way the child ends)
_trace_fd = None


def open_trace():
    global _trace_fd
    _trace_fd = os.open(os.path.join(os.getcwd(), ".trace"), os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)


def rec(_k, **data):
    data["k"] = _k
    os.write(_trace_fd, (json.dumps(data, default=str) + "\n").encode())


def read_trace(wdir):
    out = []
    try:
        with open(os.path.join(wdir, ".trace"), "rb") as f:
            for line in f:
                if line.endswith(b"\n"):
                    out.append(json.loads(line))
    except OSError:
        pass
    return out
