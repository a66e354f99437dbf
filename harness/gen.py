"""Generators shared by the property modules.  Everything is JSON-able."""
import datetime

from hypothesis import strategies as st
from .gens import mix

EPOCH_DAYS = [(2023, 11, 6), (2024, 2, 28), (2024, 2, 29), (2024, 12, 31), (2025, 1, 1), (2023, 12, 31), (2026, 3, 1),
              (2027, 6, 30), (2024, 9, 9)]

dates = mix(
    st.sampled_from(EPOCH_DAYS).map(lambda t: datetime.date(*t)),
    st.dates(datetime.date(2023, 1, 1), datetime.date(2029, 12, 1)))


def hhmmss(sec):
    return "%02d:%02d:%02d" % (sec // 3600, sec // 60 % 60, sec % 60)


secs_of_day = mix(
    st.integers(0, 86399),
    st.sampled_from([0, 1, 59, 60, 9 * 3600 + 1800, 11 * 3600 + 1800, 13 * 3600, 15 * 3600, 15 * 3600 + 1800,
                     86399, 86340, 9 * 3600 + 1799, 9 * 3600, 10 * 3600]))

# a start instant lies half a second (or another fraction) past a whole second: tasks are due at whole seconds
fractions = st.sampled_from([500000, 1000, 250000, 940000, 123456])


@st.composite
def starts(draw):
    d = draw(dates)
    s = draw(secs_of_day)
    t = datetime.datetime.combine(d, datetime.time()) + datetime.timedelta(seconds=s, microseconds=draw(fractions))
    return t.isoformat(timespec="microseconds")


@st.composite
def offsets(draw, max_h=99):
    """'1h', '30m', '1h5m10s', '10s1h' ... each unit at most once"""
    units = draw(st.lists(st.sampled_from("hms"), min_size=1, max_size=3, unique=True))
    out = ""
    for u in units:
        v = draw(mix(st.integers(0, 5), st.integers(0, 99)))
        if u == "h":
            v = min(v, max_h)
        out += (("%02d" if draw(st.booleans()) else "%d") % v) + u
    return out


@st.composite
def clock_exprs(draw):
    s = draw(secs_of_day)
    h, m, x = s // 3600, s // 60 % 60, s % 60
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return "%02d:%02d" % (h, m)
    if kind == 1:
        return "%d:%d:%d" % (h, m, x)
    return "%02d:%02d:%02d" % (h, m, x)


def exprs(max_h=4):
    return mix(
        clock_exprs(),
        st.sampled_from(["open", "close", "before_open", "after_close"]),
        st.builds(lambda b, o, f: b + o + f, st.sampled_from(["open", "close"]), st.sampled_from("+-"),
                  offsets(max_h)))


@st.composite
def market_periods(draw, max_minutes=None):
    """1-3 disjoint trading sessions in order, at least two minutes apart"""
    n = draw(st.integers(1, 3))
    out, lo = [], 0
    for i in range(n):
        if lo > 86399 - 120:
            break
        a = draw(st.integers(lo, min(86399 - 60, lo + 40000)))
        length = draw(st.integers(0, max_minutes * 60 if max_minutes else 3 * 3600))
        b = min(86399, a + length)
        if draw(st.booleans()):
            a -= a % 60
            b -= b % 60
            if a < lo or b < a:
                continue
        out.append([hhmmss(a), hhmmss(b)])
        lo = b + 120
    return out or None
