"""A trade gate for the cases: implements the documented AbsTradeGate interface on top of a plain model."""
import copy
import sys
import types

from . import sandbox, vt


class Book(object):
    """what the broker knows; the case changes it, the gate reports it"""

    def __init__(self):
        self.cash = {"total_asset": 1000.0, "available_cash": 600.0, "locked_cash": 100.0}
        self.positions = []
        self.orders = []
        self.fail = {}            # method -> exception to raise, or None
        self.calls = []
        self.order_hook = None
        self.raw_balance = None   # reported instead of cash/positions when set


BOOK = None


def install():
    """make `vgate.VGate` importable and the configured trade gate"""
    global BOOK
    BOOK = Book()
    from jqtrade.account.trade_gate import AbsTradeGate

    class VGate(AbsTradeGate):
        def setup(self, options):
            self._options = options
            BOOK.calls.append(("setup", dict(options)))
            self._maybe_fail("setup")

        def _maybe_fail(self, what):
            e = BOOK.fail.get(what)
            if e is not None:
                raise copy.copy(e).with_traceback(None)      # a new one: a traceback only grows

        def order(self, sys_order):
            o = sys_order
            BOOK.calls.append(("order", describe(o)))
            if BOOK.order_hook:
                BOOK.order_hook(o)
            self._maybe_fail("order")

        def cancel_order(self, order_id):
            BOOK.calls.append(("cancel", order_id))
            self._maybe_fail("cancel")

        def sync_balance(self):
            BOOK.calls.append(("sync_balance", vt.now_ns()))
            sandbox.rec("sync", what="balance", t=vt.now_ns(), s=sim_time())
            self._maybe_fail("sync_balance")
            if BOOK.raw_balance is not None:
                return copy.deepcopy(BOOK.raw_balance)
            return {"cash": dict(BOOK.cash), "positions": [dict(p) for p in BOOK.positions]}

        def sync_orders(self):
            BOOK.calls.append(("sync_orders", vt.now_ns()))
            sandbox.rec("sync", what="orders", t=vt.now_ns(), s=sim_time())
            self._maybe_fail("sync_orders")
            return [dict(o) for o in BOOK.orders]

    m = types.ModuleType("vgate")
    m.VGate = VGate
    sys.modules["vgate"] = m
    from jqtrade.account.config import get_config
    get_config().TRADE_GATE = "vgate.VGate"
    return BOOK


def sim_time():
    from jqtrade.scheduler.context import Context
    try:
        s = Context.get_instance().strategy_dt
    except Exception:
        return None
    return vt.to_ns(s) if s else None


def describe(o):
    """an order as a trade gate gets it"""
    return {"order_id": o.order_id, "code": o.code, "amount": o.amount, "price": o.price, "side": o.side.value,
            "action": o.action.value, "style": o.style.value, "status": o.status.value}


def view_order(u):
    """a UserOrder as a strategy sees it"""
    return {"order_id": u.order_id, "code": u.code, "amount": u.amount, "order_price": u.order_price, "side": u.side,
            "action": u.action, "style": u.style.value, "style_price": u.style.price, "status": u.status,
            "filled_amount": u.filled_amount,
            "canceled_amount": u.canceled_amount, "avg_price": u.avg_price, "deal_balance": u.deal_balance,
            "err_msg": u.err_msg, "create_time": str(u.create_time) if u.create_time else None,
            "entrust_time": str(u.entrust_time) if u.entrust_time else None}


def view_orders(g, **kw):
    return {k: view_order(v) for k, v in g["get_orders"](**kw).items()}


def view_position(p):
    return {"code": p.security, "amount": p.total_amount, "closeable": p.closeable_amount, "avg_cost": p.avg_cost,
            "side": p.side, "last_price": p.last_price, "value": p.position_value, "code2": p.code,
            "locked": p.locked_amount}


def view_portfolio(ctx):
    pf = ctx.portfolio
    return {"total": pf.total_value, "cash": pf.available_cash, "locked": pf.locked_cash,
            "value": pf.position_value,
            "long": {c: view_position(p) for c, p in pf.long_positions.items()},
            "short": {c: view_position(p) for c, p in pf.short_positions.items()}}
