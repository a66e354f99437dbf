"""C25: the event queue and bus deliver everything once, in priority order."""
import bisect
import os
import random
import sys
import threading
import time
import traceback

from hypothesis import strategies as st

from harness import sandbox
from harness.core import Outcome, Violation
from harness.gens import mix

ID = "C25"
LEVEL = "exploration"
RULE = ("Three kinds of cases. queue: push, pop, top and empty calls on either queue class, with plain keys and with messages, against a sorted list. bus: register, unregister and emit calls on a hierarchy of event classes, callbacks that return values, "
        "unregister themselves, register another or emit a nested event, against a list of subscriptions. threads: several threads push and pop through one queue while key comparisons yield; every item must come out exactly once, and each thread's "
        "view stay ordered. Non-trivial: a pop with at least three items queued out of order; an emit that reached callbacks of several priorities or classes; threads that both found and missed items or popped while another was inside the queue.")
ASSUMPTIONS = ["Keys are distinct or their items comparable.", "A callback is registered once per class at a time.",
               "Order between callbacks of different classes, and what a change made during an emit does to that same emit for callbacks other than those already subscribed, are left open."]
QUICK = 400
THOROUGH = 30000

SHAPE = [None, 0, 0, 1, 1, 2, 3]        # parent of each event class; 0 is Event itself


qop = mix(
    st.tuples(st.just("push"), st.integers(0, 6), st.integers(-3, 3)), st.tuples(st.just("push"), st.integers(0, 1700000000000), st.integers(-2, 2)),
    st.tuples(st.just("push"), st.integers(0, 3), st.just(0)),
    st.just(("pop",)), st.just(("pop",)), st.just(("top",)), st.just(("empty",)))
queue_case = st.fixed_dictionaries({"kind": st.just("queue"), "cls": st.sampled_from(["PriorityQueue", "ThreadSafeQueue"]), "items": st.sampled_from(["message", "message", "plain", "tuple"]),
                                    "ops": st.lists(qop, min_size=1, max_size=60)})
bop = mix(
    st.tuples(st.just("register"), st.integers(0, 6), st.integers(0, 11), mix(st.none(), st.integers(-2, 3))),
    st.tuples(st.just("register"), st.integers(0, 2), st.integers(0, 11), mix(st.none(), st.integers(-2, 3))),
    st.tuples(st.just("unregister"), st.integers(0, 6), st.integers(0, 11)),
    st.tuples(st.just("emit"), st.integers(0, 6)), st.tuples(st.just("emit"), st.integers(3, 6)))
action = mix(st.none(), st.none(), st.none(), st.just(["once"]), st.tuples(st.just("unregister"), st.integers(0, 11)).map(list), st.tuples(st.just("register"), st.integers(0, 6), st.integers(0, 11), st.integers(-2, 3)).map(list),
                   st.tuples(st.just("emit"), st.integers(0, 6)).map(list), st.just(["raise"]))
bus_case = st.fixed_dictionaries({"kind": st.just("bus"), "ops": st.lists(bop, min_size=2, max_size=40), "actions": st.lists(action, min_size=12, max_size=12), "methods": st.booleans()})
thread_case = st.fixed_dictionaries({"kind": st.just("threads"), "pushers": st.integers(1, 4), "poppers": st.integers(1, 4), "n": st.integers(1, 40), "seed": st.integers(0, 10 ** 6), "pause": st.sampled_from([0, 0.0, 0.0002, 0.001]),
                                     "pre": st.integers(0, 20), "equal_times": st.booleans()})


def strategy(tier):
    return mix(queue_case, bus_case, bus_case, thread_case)


# ------------------------------------------------------------------ queue
def callback(*a):
    pass


def run_queue(case):
    from jqtrade.scheduler import queue as Q
    from jqtrade.scheduler.message import Message
    q = getattr(Q, case["cls"])()
    model = []            # sorted (key, n)
    items, n, nt = {}, 0, False
    for op in case["ops"]:
        if op[0] == "push":
            n += 1
            if case["items"] == "message":
                it = Message(op[1], callback, callback_data={"n": n}, priority=op[2])
                key = (op[1], -op[2], n)
                q.push(it, it.sort_key)
                items[n] = it
            else:
                key = (op[1], op[2], n) if case["items"] == "tuple" else op[1]
                q.push(n, key)
                items[n] = n
            nt |= bool(model) and (key, n) < model[-1]
            bisect.insort(model, (key, n))
        elif op[0] == "empty":
            if q.empty() is not (not model):
                raise Violation("empty() of a queue with %d items is %s (%s)" % (len(model), q.empty(), case["ops"]))
        else:
            try:
                r = getattr(q, op[0])()
            except Q.QueueEmptyError:
                r = None
            if not model:
                if r is not None:
                    raise Violation("%s on an empty queue gave %s" % (op[0], r))
                continue
            if r is None:
                raise Violation("%s on a queue with %d items raised QueueEmptyError (%s)" % (op[0], len(model), case["ops"]))
            ok = [m for m in model if m[0] == model[0][0]]       # any of those with the smallest key
            hit = [m for m in ok if items[m[1]] is r or (case["items"] != "message" and r == m[1])]
            if not hit:
                raise Violation("%s gave %s, the smallest key is %s (%s)" % (op[0], r, model[0], case["ops"]))
            if op[0] == "pop":
                model.remove(hit[0])
                if case["items"] == "message" and (r.callback is not callback or r.callback_data != {"n": hit[0][1]} or (r.time, r.priority) != (hit[0][0][0], -hit[0][0][1])):
                    raise Violation("a message came out changed: %r" % r)
    while model:
        r = q.pop()
        hit = [m for m in model if m[0] == model[0][0] and (items[m[1]] is r)]
        if not hit:
            raise Violation("draining gave %s, the smallest key is %s (%s)" % (r, model[0], case["ops"]))
        model.remove(hit[0])
    if not q.empty():
        raise Violation("the queue holds items after all were popped (%s)" % case["ops"])
    return bool(nt)


# ------------------------------------------------------------------ bus
class Boom(Exception):
    pass


def run_bus(case):
    from jqtrade.scheduler.bus import EventBus
    from jqtrade.scheduler.event import Event
    classes = []
    for i, p in enumerate(SHAPE):
        classes.append(Event if p is None else type("E%d" % i, (classes[p],), {}))
    ancestors = []
    for i, p in enumerate(SHAPE):
        ancestors.append([i] + (ancestors[p] if p is not None else []))
    bus = EventBus()
    subs = []             # [class index, callback, priority, number]
    log = []              # calls of the running emits
    st_ = {"seq": 0, "changes": 0, "depth": 0, "nt": False, "boom": False}

    def make(i):
        act = case["actions"][i]

        def cb(event):
            log[-1].append((i, event))
            if act and st_["depth"] == 1:
                if act[0] == "once":
                    for s in [s for s in subs if s[1] == i]:
                        unregister(s[0], i)
                elif act[0] == "unregister":
                    for s in [s for s in subs if s[1] == act[1]]:
                        unregister(s[0], act[1])
                elif act[0] == "register":
                    register(act[1], act[2], act[3])
                elif act[0] == "emit":
                    emit(act[1])
                elif act[0] == "raise" and st_["boom"]:
                    raise Boom()
            return ["result", i]
        cb.__name__ = "cb%d" % i
        return cb

    cbs = []
    for i in range(12):
        f = make(i)
        if case["methods"] and i % 2:
            h = type("H", (), {"run": (lambda f: lambda self, event: f(event))(f)})()
            cbs.append(h)
        else:
            cbs.append(f)

    def target(i):
        return cbs[i].run if case["methods"] and i % 2 else cbs[i]

    def register(c, i, p):
        if any(s[0] == c and s[1] == i for s in subs):
            return
        st_["seq"] += 1
        st_["changes"] += 1
        subs.append([c, i, p or 0, st_["seq"]])
        if p is None:
            bus.register(classes[c], target(i))
        else:
            bus.register(classes[c], target(i), priority=p)

    def unregister(c, i):
        st_["changes"] += 1
        bus.unregister(classes[c], target(i))
        subs[:] = [s for s in subs if not (s[0] == c and s[1] == i)]

    def emit(c):
        before, changes = [list(s) for s in subs if s[0] in ancestors[c]], st_["changes"]
        e = classes[c]()
        log.append([])
        st_["depth"] += 1
        try:
            r = bus.emit(e)
        except Boom:
            log.pop()
            raise
        finally:
            st_["depth"] -= 1
        calls = log.pop()
        if any(x[1] is not e for x in calls):
            raise Violation("a callback was called with another event")
        if [list(x) for x in r] != [["result", x[0]] for x in calls]:
            raise Violation("emit returned %s, the callbacks called were %s" % (r, [x[0] for x in calls]))
        after = {s[3] for s in subs}
        must = [s for s in before if s[3] in after]           # subscribed all the time
        may = {s[1] for s in before} | {s[1] for s in subs if s[0] in ancestors[c]} | {case["actions"][x[0]][2] for x in calls if case["actions"][x[0]] and case["actions"][x[0]][0] == "register"}
        got = [x[0] for x in calls]
        for i in set(got):
            if i not in may:
                raise Violation("callback %d was called for an event of class %d, it is not registered for it: %s" % (i, c, before))
        for i in {s[1] for s in must}:
            want = sum(1 for s in must if s[1] == i)
            if got.count(i) < want:
                raise Violation("an event of class %d reached callback %d %d times, it is registered for %d of its classes: %s, called %s, actions %s"
                                % (c, i, got.count(i), want, before, got, case["actions"]))
        if st_["changes"] == changes:
            if sorted(got) != sorted(s[1] for s in before):
                raise Violation("an event of class %d reached %s, registered are %s" % (c, got, before))
        if len(set(got)) == len(got):
            # within one class: priority, then registration (only those subscribed all the time)
            for k in ancestors[c]:
                want = [s[1] for s in sorted([s for s in must if s[0] == k], key=lambda s: (-s[2], s[3]))]
                have = [i for i in got if i in want]
                if have != want:
                    raise Violation("callbacks of class %d ran in the order %s, expected %s: %s" % (k, have, want, before))
        if len({s[2] for s in before}) > 1 or len({s[0] for s in before}) > 1:
            st_["nt"] = True

    for n, op in enumerate(case["ops"]):
        if op[0] == "register":
            register(*op[1:])
        elif op[0] == "unregister":
            unregister(*op[1:])
        else:
            st_["boom"] = n % 2 == 0
            try:
                emit(op[1])
            except Boom:
                pass          # left open what else is called; later emits are checked as ever
    return st_["nt"]


# ------------------------------------------------------------------ threads
def run_threads(case):
    from jqtrade.scheduler.queue import QueueEmptyError, ThreadSafeQueue
    sys.setswitchinterval(1e-6)
    rnd = random.Random(case["seed"])

    class Key(object):
        __slots__ = ("v",)

        def __init__(self, v):
            self.v = v

        def _yield(self):
            if case["pause"] == 0:
                for _ in range(20):
                    pass
            elif not main_thread_is_draining[0]:
                time.sleep(case["pause"])

        def __lt__(self, other):
            self._yield()
            return self.v < other.v

        def __eq__(self, other):
            self._yield()
            return self.v == other.v
        __hash__ = None

    main_thread_is_draining = [True]
    q, pre = ThreadSafeQueue(), []
    for i in range(case["pre"]):
        pre.append(rnd.randrange(1000))
        q.push((-1, i), Key((pre[i], -1, i)))
    main_thread_is_draining[0] = False
    n = min(case["n"], 8) if case["pause"] else case["n"]
    popped = [[] for _ in range(case["poppers"])]
    missed = [0]
    errors = []
    plans = [[rnd.randrange(5 if case["equal_times"] else 100000) for _ in range(n)] for _ in range(case["pushers"])]
    quota = n * case["pushers"] // 2 // case["poppers"] + 1
    start = threading.Barrier(case["pushers"] + case["poppers"])

    def push(k):
        try:
            start.wait(20)
            for j, t in enumerate(plans[k]):
                q.push((k, j), Key((t, k, j)))
        except BaseException as e:
            errors.append("push: %r" % e)

    def pop(k):
        try:
            start.wait(20)
            for _ in range(quota * 3):
                if len(popped[k]) >= quota:
                    break
                try:
                    q.top() if _ % 3 == 0 else q.empty()
                    popped[k].append(q.pop())
                except QueueEmptyError:
                    missed[0] += 1
        except BaseException as e:
            errors.append("pop: %r" % e)

    ts = [threading.Thread(target=push, args=(k,), daemon=True) for k in range(case["pushers"])] + [threading.Thread(target=pop, args=(k,), daemon=True) for k in range(case["poppers"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    if any(t.is_alive() for t in ts):
        raise Violation("concurrent use of the queue does not come to an end")
    if errors:
        raise Violation("concurrent use of the queue raised %s" % errors[:3])
    main_thread_is_draining[0] = True
    rest = []
    while not q.empty():
        rest.append(q.pop())
    want = [(-1, i) for i in range(case["pre"])] + [(k, j) for k in range(case["pushers"]) for j in range(n)]
    got = rest + [x for p in popped for x in p]
    if sorted(got) != sorted(want):
        lost = [x for x in want if x not in got]
        twice = [x for x in set(got) if got.count(x) > 1]
        raise Violation("of %d items pushed concurrently, %d came out; lost %s, more than once %s" % (len(want), len(got), lost[:5], twice[:5]))
    ranks = [(plans[x[0]][x[1]] if x[0] >= 0 else pre[x[1]],) + x for x in rest]
    if ranks != sorted(ranks):
        raise Violation("after concurrent use the queue is out of order: %s" % ranks)
    return sum(map(len, popped)) > 1 and bool(rest or missed[0])


def guarded(case):
    try:
        return ["ok", {"queue": run_queue, "bus": run_bus, "threads": run_threads}[case["kind"]](case)]
    except Violation as e:
        return ["violation", str(e)]
    except Exception:
        return ["violation", "a call raised\n" + traceback.format_exc()[-1500:]]


def run(case, env):
    d = env.new_dir()
    try:
        res = sandbox.run_case(guarded, (case,), d)
        if res.status != "ok":
            raise Violation("the calls: the process %s\n%s" % (res.describe(), res.output[-1000:]))
        if res.value[0] == "violation":
            raise Violation(res.value[1])
        return Outcome(res.value[1], [case["kind"] + (": non-trivial" if res.value[1] else "")])
    finally:
        env.drop(d)
