"""Reference model of the scheduling rules (README: run_daily, set_options(market_period))."""
import datetime
import re

DAY = datetime.timedelta(days=1)
DEFAULT_PERIOD = [["09:30:00", "11:30:00"], ["13:00:00", "15:00:00"]]


def secs(hms):
    h, m, s = hms.split(":")
    return int(h) * 3600 + int(m) * 60 + int(s)


def offsets(expr, period=None):
    """seconds relative to midnight at which a task with this expression is due, every day"""
    period = period or DEFAULT_PERIOD
    named = {"before_open": "open-30m", "after_close": "close+30m"}
    expr = named.get(expr, expr)
    if expr == "every_minute":
        out = []
        for a, b in period:
            t = secs(a)
            while t <= secs(b):
                out.append(t)
                t += 60
        return out
    if ":" in expr:
        parts = expr.split(":")
        return [int(parts[0]) * 3600 + int(parts[1]) * 60 + (int(parts[2]) if len(parts) > 2 else 0)]
    m = re.match(r"^(open|close)(?:([+-])((?:\d{1,2}[hms])+))?$", expr)
    base = secs(period[0][0]) if m.group(1) == "open" else secs(period[-1][1])
    off = 0
    for n, u in re.findall(r"(\d{1,2})([hms])", m.group(3) or ""):
        off += int(n) * {"h": 3600, "m": 60, "s": 1}[u]
    return [base - off if m.group(2) == "-" else base + off]


def crosses_midnight(expr, period=None):
    return any(not 0 <= o < 86400 for o in offsets(expr, period))


def due(expr, period, first_day, last_day):
    """all due instants belonging to the days first_day..last_day"""
    out = []
    d = first_day
    offs = offsets(expr, period)
    while d <= last_day:
        base = datetime.datetime.combine(d, datetime.time())
        out.extend(base + datetime.timedelta(seconds=o) for o in offs)
        d += DAY
    return out
