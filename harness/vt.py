"""Python side of shim.c (virtual time and fault injection).  Only used inside case processes."""
import ctypes
import datetime
import os
import sys
import traceback

NS = 1000000000
_lib = None
_cb_keep = None
_alarms = []          # sorted list of (ns, seq, fn)
_seq = 0


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.vt_enable.argtypes = [ctypes.c_int64] * 3
        L.vt_advance.argtypes = [ctypes.c_int64]
        L.vt_set_alarm.argtypes = [ctypes.c_int64]
        L.vt_set_jitter.argtypes = [ctypes.c_int64]
        L.vt_step_wall.argtypes = [ctypes.c_int64]
        L.vt_real.restype = ctypes.c_int64
        L.vt_waits.restype = ctypes.c_int64
        L.fi_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        L.fi_ops.restype = ctypes.c_int64
        L.fi_hit.restype = ctypes.c_int
        L.hk_set.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
        _lib = L
    return _lib


def to_ns(dt):
    """naive local datetime -> ns since the epoch (microsecond precision, exact)"""
    base = dt.replace(microsecond=0)
    return int(base.timestamp()) * NS + dt.microsecond * 1000


def from_ns(ns):
    return datetime.datetime.fromtimestamp(ns // NS) + datetime.timedelta(microseconds=(ns % NS) // 1000)


def enable(start_dt, tick_ns=1000):
    global _cb_keep
    L = lib()
    proto = ctypes.CFUNCTYPE(None)
    _cb_keep = proto(_on_alarm)
    L.vt_set_cb(_cb_keep)
    L.vt_enable(to_ns(start_dt), 1000 * NS, tick_ns)


def now_ns():
    return lib().vt_real()


def now():
    return from_ns(now_ns())


def advance(seconds):
    lib().vt_advance(int(seconds * NS))


def step_wall(seconds):
    lib().vt_step_wall(int(seconds * NS))


def jitter(seconds):
    lib().vt_set_jitter(int(seconds * NS))


def _rearm():
    lib().vt_set_alarm(_alarms[0][0] if _alarms else 2 ** 63 - 1)


def at(dt, fn):
    """run fn at a virtual wall-clock instant, while the process is blocked in a wait"""
    global _seq
    _seq += 1
    _alarms.append((to_ns(dt), _seq, fn))
    _alarms.sort(key=lambda a: a[:2])
    _rearm()


def _on_alarm():
    while _alarms and _alarms[0][0] <= now_ns():
        _, _, fn = _alarms.pop(0)
        try:
            fn()
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(70)
    _rearm()


def crash_at(prefix, k, partial_pct=0):
    lib().fi_arm(str(prefix).encode(), 1, k, 0, partial_pct, 0)


def fail_at(prefix, k, err, partial_pct=0, repeat=False):
    lib().fi_arm(str(prefix).encode(), 2, k, err, partial_pct, 1 if repeat else 0)


def count_ops(prefix):
    lib().fi_arm(str(prefix).encode(), 0, 0, 0, 0, 0)


def disarm():
    lib().fi_disarm()


def pause(on):
    """no faults for what the case itself does"""
    lib().fi_pause(1 if on else 0)


def ops():
    return lib().fi_ops()


def hits():
    return lib().fi_hit()


_hook_keep = []


def hook_ops(prefix, fn):
    """fn(op, fd) before each exclusive lock ("lock") and before ("write") and after ("written") each write below prefix"""
    def cb(op, fd):
        try:
            fn(op.decode(), fd)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(70)
    c = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int)(cb)
    _hook_keep.append(c)
    lib().hk_set(str(prefix).encode(), ctypes.cast(c, ctypes.c_void_p))
