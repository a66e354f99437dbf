"""Runs a list of steps inside the callbacks of one real strategy process: step 0 in process_initialize (after set_options),
the others in callbacks `gap` seconds apart."""
import datetime

from . import sandbox, sim, vt


def run_steps(start, steps, options, do, gap=60, argv=(), before=None, horizon=None, name="vtask", extra=None, tick_ns=1000,
              on_horizon="term", pre_options=None, code="vstrategy_case.py"):
    """do(op, g, ctx, k): performs one operation of step k; `extra`: initialize hook after step 0"""
    first = start.replace(microsecond=0) + datetime.timedelta(seconds=1)
    times = [first + datetime.timedelta(seconds=gap * i) for i in range(len(steps) - 1)]
    horizon = horizon or (start + datetime.timedelta(seconds=gap * (len(steps) + 1) + 5))
    n = [0]

    def play(k, g, ctx):
        for op in steps[k]:
            do(op, g, ctx, k)

    def initialize(g, ctx):
        if pre_options:
            pre_options(g, ctx)
        g["set_options"](**options)
        play(0, g, ctx)
        for t in times:
            g["run_daily"](g["f0"], t.strftime("%H:%M:%S"))
        if extra:
            extra(g, ctx)
        sandbox.rec("ready", t=vt.now_ns())

    def fire(i, g, ctx):
        n[0] += 1
        if n[0] < len(steps):
            play(n[0], g, ctx)

    return sim.start_task(start, horizon, initialize, fire, nfuncs=1, argv=argv, before=before, name=name, tick_ns=tick_ns,
                          on_horizon=on_horizon, code=code)
