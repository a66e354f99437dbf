"""Recording stand-ins for the machine's processes, and command lines of strategy tasks.  No real process is ever looked at
or signalled by a case that called install()."""
import os
import signal

from hypothesis import strategies as st
from .gens import mix


# ------------------------------------------------------------------ stand-ins (inside case processes)
class Table(object):
    def __init__(self, procs):
        self.procs = {p["pid"]: p for p in procs}
        self.signals = []          # (pid, signal number) that reached a process
        self.used = {}

    def touch(self, pid, n=1):
        """one more look at a process; raises when it has vanished"""
        import psutil
        p = self.procs.get(pid)
        if p is None:
            raise psutil.NoSuchProcess(pid)
        self.used[pid] = self.used.get(pid, 0) + n
        v = p.get("vanish")
        if v is not None and self.used[pid] > v:
            raise (psutil.ZombieProcess if p.get("zombie") else psutil.NoSuchProcess)(pid)
        return p


TABLE = None


class Proc(object):
    """looks like psutil.Process"""

    def __init__(self, pid=None):
        self.pid = os.getpid() if pid is None else pid
        if self.pid not in TABLE.procs:
            import psutil
            raise psutil.NoSuchProcess(self.pid)

    def _get(self, what):
        import psutil
        p = TABLE.touch(self.pid)
        if p.get("denied") and what in ("cmdline", "exe", "environ", "cwd"):
            raise psutil.AccessDenied(self.pid)
        return p[what]

    def cmdline(self):
        return list(self._get("cmdline"))

    def name(self):
        return self._get("name")

    def ppid(self):
        return self._get("ppid")

    def exe(self):
        return (self._get("cmdline") or [""])[0]

    def status(self):
        TABLE.touch(self.pid)
        return "sleeping"

    def username(self):
        TABLE.touch(self.pid)
        return "root"

    def create_time(self):
        TABLE.touch(self.pid, 0)
        return 1700000000.0 + self.pid

    def is_running(self):
        import psutil
        try:
            TABLE.touch(self.pid)
        except psutil.NoSuchProcess:
            return False
        return True

    def parent(self):
        p = self.ppid()
        return Proc(p) if p in TABLE.procs else None

    def parents(self):
        out, p = [], self.parent()
        while p is not None and p.pid not in [x.pid for x in out]:
            out.append(p)
            p = p.parent()
        return out

    def children(self, recursive=False):
        out = [Proc(p["pid"]) for p in TABLE.procs.values() if p["ppid"] == self.pid and p["pid"] != self.pid]
        if recursive:
            for c in list(out):
                out += c.children(True)
        return out

    def oneshot(self):
        import contextlib
        return contextlib.nullcontext()

    def as_dict(self, attrs=None, ad_value=None):
        import psutil
        out = {}
        for a in attrs or ["pid", "ppid", "name", "cmdline"]:
            try:
                v = getattr(self, a)
                out[a] = v() if callable(v) else v
            except psutil.AccessDenied:
                out[a] = ad_value
        return out

    def wait(self, timeout=None):
        return None

    def send_signal(self, sig):
        TABLE.touch(self.pid)
        TABLE.signals.append((self.pid, int(sig)))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def suspend(self):
        self.send_signal(signal.SIGSTOP)

    def __eq__(self, other):
        return isinstance(other, Proc) and other.pid == self.pid

    def __hash__(self):
        return hash(self.pid)


def install(procs, kill=True):
    """replaces the machine's process list, and the ways to signal one, for this process"""
    global TABLE
    import psutil
    TABLE = Table(procs)

    def process_iter(attrs=None, ad_value=None):
        for pid in sorted(TABLE.procs):
            p = Proc(pid)
            if attrs is not None:
                try:
                    p.info = p.as_dict(attrs, ad_value)
                except psutil.NoSuchProcess:
                    continue
            yield p

    def os_kill(pid, sig):
        try:
            if sig == 0:
                TABLE.touch(pid)
            else:
                Proc(pid).send_signal(sig)
        except psutil.NoSuchProcess:
            raise ProcessLookupError(pid)

    psutil.process_iter = process_iter
    psutil.Process = Proc
    psutil.pids = lambda: sorted(TABLE.procs)
    psutil.pid_exists = lambda pid: pid in TABLE.procs
    psutil.wait_procs = lambda procs, timeout=None, callback=None: (list(procs), [])
    if kill:
        os.kill = os_kill
        os.killpg = os_kill
    return TABLE


# ------------------------------------------------------------------ command lines
plain = mix(st.sampled_from(["demo", "a", "b", "task-1", "策略", "my task", "x=y", "1"]), st.text("abc-_ .=é策/", min_size=1, max_size=6))
names = mix(st.sampled_from(["demo", "demo", "demo1", "Demo", "dem", "demo ", "策略一"]), plain, st.sampled_from(["-5", "-x", "--debug", "start_task", "jqtrade", "-n", "", "--", "a b", "-a b", "=x", "None"]))


@st.composite
def options(draw, name=names, code=plain, out=mix(st.none(), plain), env=mix(st.none(), st.sampled_from(["A=1", "A=1;B=2", "PYTHONPATH=./x", "A=b=c;", "A=中"])), config=mix(st.none(), plain)):
    return {"name": draw(name), "code": draw(code), "out": draw(out), "env": draw(env), "config": draw(config), "debug": draw(st.sampled_from([False, False, True]))}


LONG = {"name": ["--name", "--nam", "--n"], "code": ["--code", "--cod"], "out": ["--out", "--ou", "--o"], "env": ["--env", "--en", "--e"], "config": ["--config", "--con", "--conf"], "debug": ["--debug", "--deb", "--d"]}
SHORT = {"name": "-n", "code": "-c", "out": "-o", "env": "-e"}


@st.composite
def argv(draw, o):
    """a form of the command line that gives the options `o`"""
    keys = [k for k in ("name", "code", "out", "env", "config") if o[k] is not None] + ["debug"] * o["debug"]
    keys = draw(st.permutations(keys))
    res = []
    for k in keys:
        if k == "debug":
            res.append(draw(st.sampled_from(["--debug", "--debug"] + LONG["debug"])))
            continue
        v = o[k]
        if draw(st.integers(0, 11)) == 0:      # given twice: the last one counts
            res += [draw(st.sampled_from([LONG[k][0], SHORT.get(k, LONG[k][0])])), "other"]
        forms = ["long=", "abbr="]
        if not v.startswith("-"):
            forms += ["long", "long", "abbr"]
            if k in SHORT:
                forms += ["short", "short", "short"]
        if k in SHORT and v and not v.startswith("="):
            forms += ["joined"]
        f = draw(st.sampled_from(forms))
        flag = draw(st.sampled_from(LONG[k])) if f.startswith("abbr") else LONG[k][0]
        if f.endswith("="):
            res.append(flag + "=" + v)
        elif f in ("long", "abbr"):
            res += [flag, v]
        elif f == "short":
            res += [SHORT[k], v]
        else:
            res.append(SHORT[k] + v)
    return res


PREFIXES = [["/usr/bin/python3", "/usr/local/bin/jqtrade"], ["python", "-m", "jqtrade"], ["/opt/venv/bin/python3.12", "-u", "-m", "jqtrade"], ["/usr/bin/python3", "/usr/lib/python3/site-packages/jqtrade/__main__.py"],
            ["jqtrade"], ["C:\\py\\python.exe", "C:\\py\\Scripts\\jqtrade.exe"], ["python", "jqtrade/__main__.py"], ["/usr/bin/python3", "-X", "utf8", "/home/u/.local/bin/jqtrade"]]
WRAPPERS = [["sudo"], ["sudo", "-u", "trader"], ["timeout", "3600"], ["nice", "-n", "5"], ["env", "A=1"], ["setsid", "--wait"]]
