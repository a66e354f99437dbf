"""Runs the real `jqtrade start_task` under virtual time in a case process."""
import datetime
import os
import signal
import sys
import traceback
import types

from . import sandbox, vt
from .core import Violation

STRATEGY = '''# generated
import vprobe


def process_initialize(context):
    vprobe.initialize(globals(), context)

%s
'''
FUNC = '''
def f%d(context):
    vprobe.fire(%d, globals(), context)
'''


def iso(dt):
    return dt.isoformat(timespec="microseconds") if dt is not None else None


def un(s):
    return datetime.datetime.fromisoformat(s) if s else None


def base_dt(case_start):
    return datetime.datetime.fromisoformat(case_start)


def isolate_process_list():
    """start_task looks through the machine's processes: show it none but those a case wants"""
    import psutil
    psutil.process_iter = lambda *a, **k: iter(())


def write_strategy(path, nfuncs, body=""):
    with open(path, "w", encoding="utf-8") as f:
        f.write(STRATEGY % "".join(FUNC % (i, i) for i in range(nfuncs)))
        f.write(body)


def text(e):
    try:
        return str(e)
    except Exception as x:
        return "<%s>" % type(x).__name__


def start_task(start, horizon, initialize, fire=None, nfuncs=0, body="", argv=(), name="vtask", tick_ns=1000,
               virtual=True, code="vstrategy_case.py", before=None, on_horizon="term", argv_name=True, args=None):
    """-> dict(end=..., exc=..., t=...).  `horizon`: virtual instant at which the run is ended with SIGTERM.
    `args`: the whole command line after start_task."""
    sandbox.open_trace()
    isolate_process_list()
    probe = types.ModuleType("vprobe")
    probe.initialize = initialize
    probe.fire = fire or (lambda i, g, c: None)
    sys.modules["vprobe"] = probe
    write_strategy(code, nfuncs, body)
    sys.argv = ["jqtrade", "start_task"] + (list(args) if args is not None else (["-n", name] if argv_name else []) + ["-c", code] + list(argv))
    from jqtrade.__main__ import main
    if virtual:
        vt.enable(start, tick_ns)

        def stop():
            sandbox.rec("horizon", t=vt.now_ns())
            os.kill(os.getpid(), signal.SIGTERM)
            vt.at(vt.now() + datetime.timedelta(days=30), lambda: (sandbox.rec("nostop", t=vt.now_ns()), os._exit(71)))

        if on_horizon == "exit":
            vt.at(horizon, lambda: (sandbox.rec("horizon", t=vt.now_ns()), os._exit(72)))
        elif horizon is not None:
            vt.at(horizon, stop)
    if before:
        before()
    end = {"end": "return", "exc": None, "msg": None, "tb": None}
    try:
        main()
    except SystemExit as e:
        end.update(end="exit", exc="SystemExit", msg=str(e.code))
    except BaseException as e:
        end.update(end="exception", exc=type(e).__name__, msg=text(e),
                   tb="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    end["t"] = vt.now_ns() if virtual else None
    sandbox.rec("end", **end)
    return end


def note(**data):
    sandbox.rec("note", **data)
