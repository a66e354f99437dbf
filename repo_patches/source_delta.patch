From 1dbe664789e41057dde2dcc686fec54decaa0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 01/48] fix: strip the SCHEDULER_/ACCOUNT_ prefix of custom
 config names, not a set of characters

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index df1dfd9..a05bb2d 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -38,7 +38,7 @@ def _load_config(path):
     account_configs = {}
     for _name in configs:
         if _name.startswith("ACCOUNT_"):
-            account_configs[_name.lstrip("ACCOUNT_")] = configs[_name]
+            account_configs[_name[len("ACCOUNT_"):]] = configs[_name]
     return account_configs
 
 
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index c5ff826..7fa99a8 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -44,7 +44,7 @@ def _load_config(path):
     scheduler_configs = {}
     for _name in configs:
         if _name.startswith("SCHEDULER_"):
-            scheduler_configs[_name.lstrip("SCHEDULER_")] = configs[_name]
+            scheduler_configs[_name[len("SCHEDULER_"):]] = configs[_name]
     return scheduler_configs
 
 
-- 
2.43.0


From 916632eb216b9062e8322ce093eca39e13ee597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 02/48] fix: pass the requested side on to the order sent to
 the trade gate

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 4e83498..6ec1d75 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -163,7 +163,7 @@ class Account(AbsAccount):
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-                          status=OrderStatus.new)
+                          status=OrderStatus.new, side=side)
         self._orders[order_id] = order_obj
         try:
             logger.info(f"提交订单，订单id：{order_id}，code：{code}，price：{style.price}，amount：{amount}，"
-- 
2.43.0


From 10a24c23b2389fe2c16c9c49b88d00e1232b2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 03/48] fix: take over zero cash values from the trade gate
 instead of keeping stale ones

---
 jqtrade/account/account.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 6ec1d75..a9bfacf 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -198,9 +198,9 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset") or self._total_assert
-            self._available_cash = cash_info.get("available_cash") or self._available_cash
-            self._locked_cash = cash_info.get("locked_cash") or self._locked_cash
+            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._available_cash = cash_info.get("available_cash", self._available_cash)
+            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
             # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
             # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-- 
2.43.0


From c2781c51a66a3cf317638bc99de3d946f0bd9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 04/48] fix: accept total_assert, the field name
 AbsTradeGate.sync_balance documents for total assets

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index a9bfacf..d082735 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -198,7 +198,7 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset", self._total_assert)
+            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
             self._available_cash = cash_info.get("available_cash", self._available_cash)
             self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
 
-- 
2.43.0


From eb8c932c37a1c7d6dd5e56aeca063b4b02d9767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 05/48] fix: sync positions without the optional side, and
 leave the trade gate's own data untouched

---
 jqtrade/account/account.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index d082735..70ac8fe 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -209,7 +209,8 @@ class Account(AbsAccount):
 
             positions = account_info["positions"]
             for _pos_info in positions:
-                _side = OrderSide.get_side(_pos_info.pop("side"))
+                _pos_info = dict(_pos_info)
+                _side = OrderSide.get_side(_pos_info.pop("side", OrderSide.long))
                 _pos = Position(
                     code=_pos_info.pop("code"),
                     amount=_pos_info.pop("amount"),
-- 
2.43.0


From 5902563b181d321719f1370ffc868938bea2064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 06/48] fix: Portfolio.position_value sums over the positions,
 not over their codes

---
 jqtrade/account/portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/portfolio.py b/jqtrade/account/portfolio.py
index 7c84a57..a085a02 100644
--- a/jqtrade/account/portfolio.py
+++ b/jqtrade/account/portfolio.py
@@ -39,7 +39,7 @@ class Portfolio(object):
 
     @property
     def position_value(self):
-        return sum(_pos.position_value for _pos in self.long_positions)
+        return sum(_pos.position_value or 0 for _pos in self.long_positions.values())
 
     def __str__(self):
         return f"Portfolio(total_assert={self.total_value}, available_assert={self.available_cash}, " \
-- 
2.43.0


From e3858ed6c8be27a5c5e2e17405134969c7e29227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 07/48] fix: add the documented UserPosition attributes code
 and locked_amount

---
 jqtrade/account/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 05e880a..36ffb1c 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -283,6 +283,8 @@ class UserPosition(object):
     def security(self):
         return self.__position.code
 
+    code = security
+
     @property
     def total_amount(self):
         return self.__position.amount
@@ -291,6 +293,10 @@ class UserPosition(object):
     def closeable_amount(self):
         return self.__position.available_amount
 
+    @property
+    def locked_amount(self):
+        return self.__position.locked_amount
+
     @property
     def avg_cost(self):
         return self.__position.avg_cost
-- 
2.43.0


From fcd603dc47999c4a1b8ea83dae793366e6653b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 08/48] fix: reject security codes without the dot before the
 exchange

---
 jqtrade/account/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 36ffb1c..06431fd 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -11,7 +11,7 @@ logger = sys_logger.getChild("account.api")
 
 
 def _check_code(code):
-    if not (code[-4:] in ("XSHE", "XSHG") and code[:-5].isdigit()):
+    if not (code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit()):
         raise InvalidParam(f"标的代码错误: {code}")
 
 
-- 
2.43.0


From 08341271b4ab3219032b24cc210f0bf9b26a4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 09/48] fix: allow '=' in the value of a --env variable, and a
 trailing separator

---
 jqtrade/scheduler/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 77ac4c2..32c9a3f 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -55,7 +55,9 @@ def parse_env(env, sep=";"):
     envs = env.split(sep)
     for _env in envs:
         _env = _env.strip()
-        _k, _v = _env.split("=")
+        if not _env:
+            continue
+        _k, _v = _env.split("=", 1)
         _k = _k.strip()
         _v = _v.strip()
         ret[_k] = _v
-- 
2.43.0


From bb5d30e18f88cbe74eedcd4a65af86b7a46ba2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 10/48] fix: dt_to_milliseconds counted the sub-second part
 twice

---
 jqtrade/common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/common/utils.py b/jqtrade/common/utils.py
index c846a1b..492b4a3 100644
--- a/jqtrade/common/utils.py
+++ b/jqtrade/common/utils.py
@@ -55,7 +55,7 @@ def parse_time(t):
 
 
 def dt_to_milliseconds(dt):
-    return int(dt.timestamp() * 1000 + dt.microsecond / 1000)
+    return int(dt.replace(microsecond=0).timestamp()) * 1000 + dt.microsecond // 1000
 
 
 def milliseconds_to_dt(milliseconds):
-- 
2.43.0


From e2d047d5d36d0d0742731d5b7e63d3bdcf7a03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 11/48] fix: read EVENT_DAYS_COUNT when it is used, so that a
 custom config takes effect

---
 jqtrade/scheduler/event_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index d35df7f..0e9deea 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -59,9 +59,12 @@ class EventSource(object):
         self._days = self._get_days()
         self._need_regenerate_events = False
 
-    def _get_days(self, count=config.EVENT_DAYS_COUNT):
+    def _get_days(self, count=None):
         days = []
 
+        if count is None:
+            count = config.EVENT_DAYS_COUNT
+
         if config.ENABLE_HISTORY_START or self._end:
             # 历史模式下，日期只有效生成一次
             if self._has_gen_his_days:
-- 
2.43.0


From 9eb8321389700bac030e3f9a254c53eaa43ea995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 12/48] fix: sync_orders survives torn, blank and malformed
 lines instead of stalling or looping forever

---
 jqtrade/account/trade_gate.py | 52 +++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 91bbf13..d79bcc3 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -396,21 +396,27 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r") as rf:
+        with open(self._order_result_csv, "rb") as rf:
             rf.seek(pre_order_result_offset)
             while True:
+                _offset = self._order_result_offset
                 try:
-                    _line = rf.readline().strip()
-                    if not _line:
+                    _raw_line = rf.readline()
+                    if not _raw_line:
                         break
+                    if _raw_line.endswith(b"\n"):
+                        _offset = rf.tell()
 
-                    if _line.startswith(self.ORDER_RESULT_COLS[0]):
-                        self._order_result_offset = rf.tell()
+                    _line = _raw_line.decode(self._file_coding, errors="replace").strip()
+                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):
+                        self._order_result_offset = _offset
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
                     if len(_items) < len(self.ORDER_RESULT_COLS):
-                        break
+                        if not _raw_line.endswith(b"\n"):
+                            break
+                        raise ParserError(f"列数不足：{_line}")
 
                     _order_result_line = self.ORDER_RESULT_CLS(*_items)
                     if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
@@ -418,7 +424,7 @@ class AnXinDMATradeGate(AbsTradeGate):
                         if self._has_synced:
                             logger.info(f"撤单失败，被撤单id：{_order_result_line.custBatchNo}，"
                                         f"失败原因：{_order_result_line.errorMsg}")
-                        self._order_result_offset = rf.tell()
+                        self._order_result_offset = _offset
                         continue
 
                     if _order_result_line.resultType == self.RESULT_TYPE_ORDER \
@@ -427,31 +433,37 @@ class AnXinDMATradeGate(AbsTradeGate):
                         if _order:
                             _order["status"] = OrderStatus.rejected.value
                             _order["err_msg"] = _order_result_line.errorMsg
-                    self._order_result_offset = rf.tell()
-                except EOFError:
-                    pass
+                    self._order_result_offset = _offset
                 except Exception as e:
                     logger.exception(f"{self._order_result_csv}中有一笔订单状态信息同步失败，error={e}")
                     if self._ignore_error_line:
-                        self._order_result_offset = rf.tell()
+                        self._order_result_offset = _offset
                     else:
                         raise
 
-        with open(self._order_update_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_update_csv, "rb") as rf:
             rf.seek(pre_order_update_offset)
             while True:
+                # 未以换行符结尾的行可能还没有写完，不记录其位置，下次同步时重新解析
+                _offset = self._order_update_offset
                 try:
-                    _line = rf.readline().strip()
-                    if not _line:
+                    _raw_line = rf.readline()
+                    if not _raw_line:
+                        break
+                    if _raw_line.endswith(b"\n"):
+                        _offset = rf.tell()
+                    elif _raw_line.count(b",") < len(self.ORDER_LINE_COLS) - 1:
                         break
 
-                    if _line.startswith(self.ORDER_LINE_COLS[0]):
-                        self._order_update_offset = rf.tell()
+                    _errors = "strict" if _raw_line.endswith(b"\n") else "replace"
+                    _line = _raw_line.decode(self._file_coding, errors=_errors).strip()
+                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
+                        self._order_update_offset = _offset
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
                     if len(_items) < len(self.ORDER_LINE_COLS):
-                        break
+                        raise ParserError(f"列数不足：{_line}")
 
                     order_line = self.ORDER_LINE_CLS(*_items)
 
@@ -461,13 +473,11 @@ class AnXinDMATradeGate(AbsTradeGate):
                     self._update_order(self._orders[order_line.custBatchNo], order_line)
 
                     # 记录下当前成功解析了的订单的位置
-                    self._order_update_offset = rf.tell()
-                except EOFError:
-                    break
+                    self._order_update_offset = _offset
                 except Exception as e:
                     logger.exception(f"{self._order_update_csv}中有一笔订单状态信息同步失败, error={e}")
                     if self._ignore_error_line:
-                        self._order_update_offset = rf.tell()
+                        self._order_update_offset = _offset
                     else:
                         raise
 
-- 
2.43.0


From b319aa1e2f3ea8972b3ea99ccc1820d4ea94492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 13/48] fix: do not half-apply an order update line that fails
 to parse

---
 jqtrade/account/trade_gate.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index d79bcc3..3eb0796 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -490,15 +490,18 @@ class AnXinDMATradeGate(AbsTradeGate):
         return data
 
     def _update_order(self, order, order_line):
-        order["status"] = self._parse_status(order_line.status).value
-        order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-                                                           "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
-        order["confirm_id"] = order_line.orderNo
-        order["filled_amount"] = int(order_line.filledQty)
-        order["deal_balance"] = round(float(order_line.filledAmt), 4)
-        order["canceled_amount"] = int(order_line.cancelQty)
-        order["avg_cost"] = round(float(order_line.avgPrice), 3)
-        order["err_msg"] = order_line.text
+        # 先完整解析再更新，避免解析失败的订单信息只更新了一部分
+        info = {}
+        info["status"] = self._parse_status(order_line.status).value
+        info["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
+                                                          "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
+        info["confirm_id"] = order_line.orderNo
+        info["filled_amount"] = int(order_line.filledQty)
+        info["deal_balance"] = round(float(order_line.filledAmt), 4)
+        info["canceled_amount"] = int(order_line.cancelQty)
+        info["avg_cost"] = round(float(order_line.avgPrice), 3)
+        info["err_msg"] = order_line.text
+        order.update(info)
 
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
-- 
2.43.0


From fa5a12a58cdf6356b8dca0546e9c1f53c871be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 14/48] fix: switch to the new day's order files when the date
 changes

---
 jqtrade/account/trade_gate.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 3eb0796..628c603 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -214,6 +214,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         # 持久化存储策略与订单映射关系，用于重启加载恢复订单
         self._data_dir = None
         self._data_file = None
+        self._data_date = None
 
         # 文件单目录
         self._order_dir = None
@@ -247,6 +248,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         if sys_order.side != OrderSide.long:
             raise InvalidParam("当前版本仅支持做多")
 
+        self._check_date_changed()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), sys_order.order_id,
                       self._counter_type, acct_no,
@@ -390,6 +393,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise ValueError(f"invalid code: {code}")
 
     def sync_orders(self):
+        self._check_date_changed()
+
         pre_order_update_offset = self._order_update_offset
         pre_order_result_offset = self._order_result_offset
 
@@ -503,6 +508,17 @@ class AnXinDMATradeGate(AbsTradeGate):
         info["err_msg"] = order_line.text
         order.update(info)
 
+    def _check_date_changed(self):
+        """ 文件单和本地缓存文件每日一份，跨日后需要切换到新文件，并从头开始解析 """
+        current_date = self._date
+        if self._data_date == current_date:
+            return
+        self._data_date = current_date
+        self._data_file = os.path.join(self._data_dir,
+                                       f"{Context.get_instance().task_name}_{current_date.strftime('%Y%m%d')}.json")
+        self._order_update_offset = 0
+        self._order_result_offset = 0
+
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
         with open(tmp_file, "w") as wf:
@@ -546,7 +562,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        ctx = Context.get_instance()
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
 
         self._data_dir = os.path.join(runtime_dir, "data")
@@ -554,7 +569,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         if not os.path.exists(self._data_dir):
             os.makedirs(self._data_dir)
 
-        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
+        self._check_date_changed()
 
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
-- 
2.43.0


From 48884fbd9ec46a082f9031cb92ad3f675fc9692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 15/48] fix: sync the account all day on the days after the
 start day too

---
 jqtrade/account/account.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 70ac8fe..f3d58de 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -132,8 +132,12 @@ class Account(AbsAccount):
         sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))
         sync_period = self._options.get("sync_period", config.SYNC_PERIOD)
         if not sync_period:
-            current = now + datetime.timedelta(seconds=sync_internal)
-            while current <= now.replace(hour=23, minute=59, second=59):
+            # 定时任务每天执行，所以需要覆盖全天，而不仅是启动时间之后的时间段
+            day_start = now.replace(hour=0, minute=0, second=0)
+            day_end = now.replace(hour=23, minute=59, second=59)
+            current = now - (now - day_start) // datetime.timedelta(seconds=sync_internal) \
+                * datetime.timedelta(seconds=sync_internal)
+            while current <= day_end:
                 event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                 current += datetime.timedelta(seconds=sync_internal)
         else:
-- 
2.43.0


From 008dff934e9cd478ee4123b64e10ab588c300a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 16/48] fix: do not generate the events of a day twice when a
 run outlives EVENT_DAYS_COUNT days

---
 jqtrade/scheduler/event_source.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 0e9deea..4d284af 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -33,6 +33,9 @@ class EventSource(object):
         self._events = []
         self._days = []
 
+        # 最近一个已生成过事件的日期
+        self._last_day = None
+
         self._start = start
         self._end = end
 
@@ -56,6 +59,7 @@ class EventSource(object):
 
         self._events = []
         self._has_gen_his_days = False
+        self._last_day = None
         self._days = self._get_days()
         self._need_regenerate_events = False
 
@@ -73,7 +77,11 @@ class EventSource(object):
             end = self._end.date() if self._end else None
             count = (end - start).days + 1 if end else count
         else:
-            start = datetime.date.today()
+            # 已经生成过事件的日期不能再次生成，否则当天的任务会重复执行
+            if self._last_day:
+                start = self._last_day + datetime.timedelta(days=1)
+            else:
+                start = datetime.date.today()
 
         for _delta in range(count):
             days.append(start + datetime.timedelta(days=_delta))
@@ -121,7 +129,7 @@ class EventSource(object):
         if len(self._events):
             return
 
-        while len(self._events) == 0:
+        while len(self._events) == 0 and self._daily:
             if len(self._days) == 0:
                 self._days = self._get_days()
 
@@ -129,6 +137,7 @@ class EventSource(object):
                 break
 
             day = self._days.pop(0)
+            self._last_day = day
             self.add_daily_events(day)
 
         self._events.sort(key=lambda e: e[0])
-- 
2.43.0


From 766fbe6af8f0812b4d80b5851edc74eb529f54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 17/48] fix: read a task's options from its command line the
 way start_task parses them

---
 jqtrade/__main__.py        | 11 +++-------
 jqtrade/scheduler/utils.py | 42 +++++++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0d7fba2..caaf350 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 import argparse
 
+from .scheduler.utils import add_start_task_arguments
+
 
 def main():
     parser = argparse.ArgumentParser()
@@ -11,14 +13,7 @@ def main():
 
     # 启动实盘任务
     start_task_parser = sub_parsers.add_parser("start_task", help="创建新的实盘任务")
-    start_task_parser.add_argument("-n", "--name", required=True, help="实盘任务名称，唯一标识该实盘任务，不能重复")
-    start_task_parser.add_argument("-c", "--code", required=True, help="策略代码路径")
-    start_task_parser.add_argument("-o", "--out", required=False, default=None, help="日志路径，不指定时打印到标准输出/错误")
-    start_task_parser.add_argument("-e", "--env", required=False, default=None,
-                                   help="指定实盘策略进程运行环境变量，多个环境变量使用分号分隔。"
-                                        "示例: -e PATH=./bin:/usr/bin;PYTHONPATH=./package;USER=test")
-    start_task_parser.add_argument("--config", required=False, default=None, help="指定自定义配置文件路径")
-    start_task_parser.add_argument("--debug", action="store_true", help="是否开启debug模式，debug模式日志更丰富些")
+    add_start_task_arguments(start_task_parser)
     start_task_parser.set_defaults(func=start_task)
 
     # 查询运行中的实盘任务
diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 32c9a3f..640b9f6 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -1,19 +1,37 @@
 # -*- coding: utf-8 -*-
+import argparse
+
+
+class _TaskInfoParser(argparse.ArgumentParser):
+    def error(self, message):
+        raise ValueError(message)
+
+
+def add_start_task_arguments(parser):
+    """ start_task支持的参数，启动任务和解析运行中任务的命令行都使用此定义 """
+    parser.add_argument("-n", "--name", required=True, help="实盘任务名称，唯一标识该实盘任务，不能重复")
+    parser.add_argument("-c", "--code", required=True, help="策略代码路径")
+    parser.add_argument("-o", "--out", required=False, default=None, help="日志路径，不指定时打印到标准输出/错误")
+    parser.add_argument("-e", "--env", required=False, default=None,
+                        help="指定实盘策略进程运行环境变量，多个环境变量使用分号分隔。"
+                             "示例: -e PATH=./bin:/usr/bin;PYTHONPATH=./package;USER=test")
+    parser.add_argument("--config", required=False, default=None, help="指定自定义配置文件路径")
+    parser.add_argument("--debug", action="store_true", help="是否开启debug模式，debug模式日志更丰富些")
 
 
 def parse_task_info(cmd_line):
-    info = {"debug": False, "env": None, "out": None}
-    for _idx, _item in enumerate(cmd_line):
-        if _item in ("-c", "--code"):
-            info["code"] = cmd_line[_idx+1]
-        elif _item in ("-o", "--out"):
-            info["out"] = cmd_line[_idx + 1]
-        elif _item in ("-n", "--name"):
-            info["name"] = cmd_line[_idx + 1]
-        elif _item in ("-e", "--env"):
-            info["env"] = cmd_line[_idx + 1]
-        elif _item == "--debug":
-            info["debug"] = True
+    info = {"debug": False, "name": None, "code": None, "env": None, "out": None}
+
+    parser = _TaskInfoParser(add_help=False)
+    add_start_task_arguments(parser)
+    start = cmd_line.index("start_task") + 1 if "start_task" in cmd_line else 0
+    try:
+        options, _ = parser.parse_known_args(cmd_line[start:])
+    except ValueError:
+        return info
+
+    for _key in info:
+        info[_key] = getattr(options, _key)
     return info
 
 
-- 
2.43.0


From ac245a4ff4e8263cd7f4cce94bfb35f3a4a3b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 18/48] fix: only take processes that run 'jqtrade start_task'
 for tasks, not any whose command line contains the words

---
 jqtrade/scheduler/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 640b9f6..8b9222d 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -35,6 +35,14 @@ def parse_task_info(cmd_line):
     return info
 
 
+def is_start_task(cmd_line):
+    """ 判断命令行是否是 "jqtrade start_task ..."，避免把命令行中恰好包含这些字符的其它进程当作实盘任务 """
+    if "start_task" not in cmd_line:
+        return False
+    _idx = cmd_line.index("start_task")
+    return _idx > 0 and "jqtrade" in cmd_line[_idx - 1]
+
+
 def get_activate_task_process():
     active_tasks = []
 
@@ -44,8 +52,7 @@ def get_activate_task_process():
         parent_pid = []
         for _p in psutil.process_iter():
             try:
-                _cmd_line = " ".join(_p.cmdline())
-                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
+                if is_start_task(_p.cmdline()):
                     task_process.append(_p)
                     parent_pid.append(_p.ppid())
             except psutil.AccessDenied:
-- 
2.43.0


From dd56cdf67d1a95e38f246d27ec84a8e3ed542262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 19/48] fix: listing and stopping tasks copes with a task that
 exits meanwhile

---
 jqtrade/__main__.py         | 29 ++++++++++++++++++-----------
 jqtrade/scheduler/runner.py |  4 ++--
 jqtrade/scheduler/utils.py  |  9 +++++++++
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index caaf350..71b730b 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -51,7 +51,7 @@ def get_tasks(options):
     """
     python -m quant_engine get_tasks
     """
-    from .scheduler.utils import get_activate_task_process, parse_task_info
+    from .scheduler.utils import get_activate_task_process, get_cmd_line, parse_task_info
 
     active_tasks = get_activate_task_process()
     if not active_tasks:
@@ -60,7 +60,9 @@ def get_tasks(options):
 
     print("当前活跃的实盘任务进程".center(30, "-"))
     for _p in active_tasks:
-        _cmd = _p.cmdline()
+        _cmd = get_cmd_line(_p)
+        if not _cmd:
+            continue
         _task_info = parse_task_info(_cmd)
         _task_info["pid"] = _p.pid
         _task_info["cmd"] = _cmd
@@ -79,7 +81,8 @@ def stop_task(options):
     python -m quant_engine stop_task -p 12345
     python -m quant_engine stop_task --all
     """
-    from .scheduler.utils import get_activate_task_process, parse_task_info
+    import psutil
+    from .scheduler.utils import get_activate_task_process, get_cmd_line, parse_task_info
 
     active_tasks = get_activate_task_process()
 
@@ -89,13 +92,17 @@ def stop_task(options):
     killed_pid = []
 
     def _kill(_p, force=False):
-        if force:
-            _p.kill()
-            print(f"强制停止进程 {_p.pid}")
-        else:
-            import signal
-            _p.send_signal(signal.SIGTERM)
-            print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        try:
+            if force:
+                _p.kill()
+                print(f"强制停止进程 {_p.pid}")
+            else:
+                import signal
+                _p.send_signal(signal.SIGTERM)
+                print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
+        except psutil.NoSuchProcess:
+            print(f"进程 {_p.pid} 已经退出")
+            return
         killed_pid.append(_p.pid)
 
     if options.all:
@@ -108,7 +115,7 @@ def stop_task(options):
                 break
     else:
         for _p in active_tasks:
-            _task_info = parse_task_info(_p.cmdline())
+            _task_info = parse_task_info(get_cmd_line(_p))
             if options.name == _task_info["name"]:
                 _kill(_p, options.force)
 
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index cd20006..925772a 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -11,7 +11,7 @@ from .event_source import EventSourceScheduler
 from .loop import EventLoop
 from .bus import EventBus
 from .context import Context
-from .utils import get_activate_task_process, parse_task_info, parse_env
+from .utils import get_activate_task_process, get_cmd_line, parse_task_info, parse_env
 from .config import setup_scheduler_config, get_config as get_scheduler_config
 
 
@@ -26,7 +26,7 @@ def _exist_repeated_task(task_name):
     for _task in active_tasks:
         if _task.pid in (current_pid, parent_pid):
             continue
-        _task_info = parse_task_info(_task.cmdline())
+        _task_info = parse_task_info(get_cmd_line(_task))
         if task_name == _task_info["name"]:
             return True
 
diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 8b9222d..aff5eef 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -43,6 +43,15 @@ def is_start_task(cmd_line):
     return _idx > 0 and "jqtrade" in cmd_line[_idx - 1]
 
 
+def get_cmd_line(process):
+    """ 获取进程的命令行，进程已经退出时返回空列表 """
+    import psutil
+    try:
+        return process.cmdline()
+    except psutil.NoSuchProcess:
+        return []
+
+
 def get_activate_task_process():
     active_tasks = []
 
-- 
2.43.0


From 6021606ec50e5f3c3cc191b5604bc42220c346b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 20/48] fix: write the order file's header once and flush
 before releasing the file lock

---
 jqtrade/account/trade_gate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 628c603..8a0e556 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -293,9 +293,12 @@ class AnXinDMATradeGate(AbsTradeGate):
             with open(file, mode, encoding=self._file_coding) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
+                    # 打开文件到拿到锁之间，文件可能已被其它策略进程写入过，需要重新定位到文件末尾
+                    fp.seek(0, os.SEEK_END)
                     if fp.tell() == 0 and header:
                         line = header + os.linesep + line
                     fp.write(line)
+                    fp.flush()
                     break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                     if time.time() - start >= self._wait_lock_time_out:
-- 
2.43.0


From 7ac7a4150813048cf616f067a1ae289a6e2ec4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 21/48] fix: persist an order before handing it to the broker,
 so that no crash point loses it

---
 jqtrade/account/trade_gate.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 8a0e556..7521992 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -273,12 +273,18 @@ class AnXinDMATradeGate(AbsTradeGate):
 
         order_info = [str(i) for i in order_info]
         order_line = ",".join(order_info) + os.linesep
-        self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)
-
-        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
+        # 先持久化再写文件单，避免写入文件单之后进程异常退出，重启后丢失该订单
         self._orders[sys_order.order_id] = sys_order.json()
-        self._save_orders()
+        try:
+            self._save_orders()
+            self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)
+        except Exception:
+            self._orders.pop(sys_order.order_id)
+            self._save_orders()
+            raise
+
+        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
     def cancel_order(self, order_id):
         now = datetime.datetime.now()
-- 
2.43.0


From d1eb33c27acd8d5dced4492e4485651aaa48be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 22/48] fix: an order the trade gate failed to take is
 rejected, not new for ever

---
 jqtrade/account/account.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index f3d58de..820ba8c 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -177,6 +177,7 @@ class Account(AbsAccount):
             return order_id
         except Exception as e:
             logger.exception(f"内部下单异常，code={code}, amount={amount}, style={style}, side={side}, error={e}")
+            order_obj.on_rejected(str(e))
 
     def cancel_order(self, order_id):
         try:
-- 
2.43.0


From 203169269870eec8a222732edd9176ed692dacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 23/48] fix: expand ~ in runtime_dir for the persisted orders
 as for the runtime directory itself

---
 jqtrade/account/trade_gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 7521992..44e67e7 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -571,7 +571,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
+        runtime_dir = os.path.abspath(os.path.expanduser(options.get("runtime_dir", scheduler_config.RUNTIME_DIR)))
 
         self._data_dir = os.path.join(runtime_dir, "data")
         logger.info(f"程序缓存数据路径: {self._data_dir}")
-- 
2.43.0


From c6db8dbc48f521115e5c99415593c2dc448f57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 24/48] fix: run_daily runs the function it was given, not
 whatever has its name in the strategy

---
 jqtrade/scheduler/strategy.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f29ef1..4200316 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -99,7 +99,7 @@ class Strategy(object):
         for _desc in self._schedules:
             logger.info(f"设置定时任务: {_desc}")
 
-            _callback = self._get_handle(_desc['name'])
+            _callback = _desc['func']
             _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
 
             event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
@@ -137,11 +137,12 @@ class Strategy(object):
 
         time = self.TIME_DICT.get(time) or time
 
-        module, func = self._check_handle(func)
+        module, name = self._check_handle(func)
 
         desc = {
             'module': module,
-            'name': func,
+            'name': name,
+            'func': func,
             'time': time,
         }
         self._schedules.append(desc)
@@ -152,9 +153,6 @@ class Strategy(object):
             raise InvalidParam(f"{func} is not callable")
         return func.__module__, func.__name__
 
-    def _get_handle(self, func_name):
-        return getattr(self._user_module, func_name, None)
-
     @property
     def user_module(self):
         return self._user_module
-- 
2.43.0


From 3406d6df4377d83a9df5fc53f3fcd13a0c167a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 25/48] fix: take over an order's entrust time and error
 message when only they changed

---
 jqtrade/account/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/order.py b/jqtrade/account/order.py
index ade33d2..79cc430 100644
--- a/jqtrade/account/order.py
+++ b/jqtrade/account/order.py
@@ -308,4 +308,6 @@ class Order(object):
             and self._deal_balance == other.deal_balance
             and self._avg_cost == other.avg_cost
             and self._commission == other.commission
+            and self._entrust_time == other.entrust_time
+            and self._err_msg == other.err_msg
         )
-- 
2.43.0


From ee63901252f1cc489392b731c07a783bc36fc247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 26/48] fix: a balance that cannot be read in full leaves the
 account as it was

---
 jqtrade/account/account.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 820ba8c..6487a9d 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -202,15 +202,9 @@ class Account(AbsAccount):
             if "positions" not in account_info:
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
-            cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
-            self._available_cash = cash_info.get("available_cash", self._available_cash)
-            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
-
-            # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
-            # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-            self._long_positions.clear()
-            self._short_positions.clear()
+            # 先完整解析持仓再更新内存，避免解析到一半出错时丢失持仓
+            long_positions = {}
+            short_positions = {}
 
             positions = account_info["positions"]
             for _pos_info in positions:
@@ -226,9 +220,21 @@ class Account(AbsAccount):
                 )
 
                 if _pos.side == OrderSide.long:
-                    self._long_positions[_pos.code] = _pos
+                    long_positions[_pos.code] = _pos
                 else:
-                    self._short_positions[_pos.code] = _pos
+                    short_positions[_pos.code] = _pos
+
+            cash_info = account_info["cash"]
+            self._total_assert = cash_info.get("total_asset", cash_info.get("total_assert", self._total_assert))
+            self._available_cash = cash_info.get("available_cash", self._available_cash)
+            self._locked_cash = cash_info.get("locked_cash", self._locked_cash)
+
+            # 每次全量同步持仓，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
+            # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
+            self._long_positions.clear()
+            self._short_positions.clear()
+            self._long_positions.update(long_positions)
+            self._short_positions.update(short_positions)
         except Exception as e:
             logger.exception(f"同步资金和持仓失败，error={e}")
 
-- 
2.43.0


From b9da12aaf149081c37f9c67afd64111a19f3bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 27/48] fix: a stop signal takes effect before the next due
 message, not after all late ones

---
 jqtrade/scheduler/loop.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 3e826ac..85abcc1 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -26,9 +26,13 @@ class EventLoop(object):
         self._queue = ThreadSafeQueue()
 
         self._uvloop = pyuv.Loop()
-        self._loop_notifier = pyuv.Async(self._uvloop, self.check_queue)
+        self._loop_notifier = pyuv.Async(self._uvloop, self.schedule_check)
         self._timer = pyuv.Timer(self._uvloop)
 
+        # check在每轮循环处理完信号之后触发，idle使这轮循环不阻塞等待
+        self._checker = pyuv.Check(self._uvloop)
+        self._idle = pyuv.Idle(self._uvloop)
+
         self._stop_requested = False
         self._exception = None
 
@@ -60,8 +64,16 @@ class EventLoop(object):
             self._stop_requested = True
             self._notify_loop()
 
+    def schedule_check(self, *args, **kwargs):
+        """ 先让事件循环处理已收到的信号，再检查消息队列，避免收到停止信号后仍继续处理已到期的消息 """
+        if not self._checker.active:
+            self._idle.start(lambda handle: None)
+            self._checker.start(self.check_queue)
+
     def check_queue(self, *args, **kwargs):
         logger.debug("check_queue run")
+        self._idle.stop()
+        self._checker.stop()
         while not self._stop_requested:
             try:
                 message = self._queue.pop()
@@ -81,7 +93,7 @@ class EventLoop(object):
                 self._timer.stop()
                 self._uvloop.update_time()
                 self._timer.start(
-                    self.check_queue,
+                    self.schedule_check,
                     timeout=wait_time,
                     repeat=0)
 
@@ -89,6 +101,8 @@ class EventLoop(object):
                 break
             else:
                 self.handle_message(message)
+                self.schedule_check()
+                break
 
         if self._stop_requested:
             self._uvloop.stop()
-- 
2.43.0


From afb39186aedc9755d53b7b1ed962ae2d0851c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 28/48] fix: a callback that raises KeyboardInterrupt or the
 like ends the run instead of leaving it idle for ever

---
 jqtrade/scheduler/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 85abcc1..3dcc018 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -112,7 +112,7 @@ class EventLoop(object):
             logger.debug(f"handle message: {message}")
             self._strategy_time = message.time
             message.callback(**message.callback_data)
-        except Exception as e:
+        except BaseException as e:
             logger.exception(f"handle message failed. message={message}, error={e}")
             e.tb = traceback.format_exc()
             self._exception = e
-- 
2.43.0


From 2304d179bce54d2e29924222831a8c29ee14407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 29/48] fix: strategies that start at the same time may all
 create the runtime directory

---
 jqtrade/account/trade_gate.py | 2 +-
 jqtrade/scheduler/strategy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 44e67e7..6532276 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -576,7 +576,7 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._data_dir = os.path.join(runtime_dir, "data")
         logger.info(f"程序缓存数据路径: {self._data_dir}")
         if not os.path.exists(self._data_dir):
-            os.makedirs(self._data_dir)
+            os.makedirs(self._data_dir, exist_ok=True)
 
         self._check_date_changed()
 
diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 4200316..0f07958 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -201,7 +201,7 @@ class Strategy(object):
         # set_options 后需要立即执行的初始化工作，避免用户查询到未同步的account信息
         runtime_dir = os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))
         if not os.path.isdir(runtime_dir):
-            os.makedirs(runtime_dir)
+            os.makedirs(runtime_dir, exist_ok=True)
         logger.info(f"程序运行时目录：{runtime_dir}")
 
         self._ctx.use_account = use_account = kwargs.get("use_account", config.SETUP_ACCOUNT)
-- 
2.43.0


From 1a9066dbe4dda2ded3b9dcf6c9214ffbe054a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 30/48] fix: refuse arguments of any wrong type with
 InvalidParam

---
 jqtrade/account/api.py   | 3 ++-
 jqtrade/account/order.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 06431fd..ba08b08 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -11,7 +11,8 @@ logger = sys_logger.getChild("account.api")
 
 
 def _check_code(code):
-    if not (code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit()):
+    if not (isinstance(code, str) and code.isascii()
+            and code[-5:] in (".XSHE", ".XSHG") and code[:-5].isdigit()):
         raise InvalidParam(f"标的代码错误: {code}")
 
 
diff --git a/jqtrade/account/order.py b/jqtrade/account/order.py
index 79cc430..9c036b2 100644
--- a/jqtrade/account/order.py
+++ b/jqtrade/account/order.py
@@ -37,7 +37,7 @@ class OrderStatus(Enum):
 
     @classmethod
     def is_valid_status(cls, status):
-        return status in cls.__members__
+        return isinstance(status, str) and status in cls.__members__
 
     @classmethod
     def finished_status(cls):
@@ -63,7 +63,7 @@ class OrderSide(Enum):
 
     @classmethod
     def is_valid_side(cls, side):
-        return side in cls.__members__
+        return isinstance(side, str) and side in cls.__members__
 
     @classmethod
     def get_side(cls, side):
-- 
2.43.0


From b038388f02d0ebeee585707e6554d0be036a0480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 31/48] fix: a failed write to the order file leaves nothing
 behind, neither half a line nor one that is written on close

---
 jqtrade/account/trade_gate.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 6532276..d328a14 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -293,18 +293,18 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._write(self._cancel_csv, order_line, header=self.CANCEL_CSV_HEADER)
         logger.info(f"撤单已提交到文件单，订单id：{order_id}")
 
-    def _write(self, file, line, mode="a", header=None):
+    def _write(self, file, line, mode="ab", header=None):
         start = time.time()
         while True:
-            with open(file, mode, encoding=self._file_coding) as fp:
+            # 不使用缓冲，避免写入失败后，缓冲中剩余的内容在关闭文件时又被写入
+            with open(file, mode, buffering=0) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
                     # 打开文件到拿到锁之间，文件可能已被其它策略进程写入过，需要重新定位到文件末尾
-                    fp.seek(0, os.SEEK_END)
-                    if fp.tell() == 0 and header:
+                    end = fp.seek(0, os.SEEK_END)
+                    if end == 0 and header:
                         line = header + os.linesep + line
-                    fp.write(line)
-                    fp.flush()
+                    self._write_all(fp, line.encode(self._file_coding), end)
                     break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
                     if time.time() - start >= self._wait_lock_time_out:
@@ -313,6 +313,16 @@ class AnXinDMATradeGate(AbsTradeGate):
                 finally:
                     portalocker.unlock(fp)
 
+    @staticmethod
+    def _write_all(fp, data, end):
+        try:
+            while data:
+                data = data[fp.write(data):]
+        except Exception:
+            # 写入失败时（例如磁盘满）不留下半行内容，避免破坏后续写入的委托
+            fp.truncate(end)
+            raise
+
     def sync_balance(self):
         data = {}
 
-- 
2.43.0


From 1e4156c4f5ea725e409c5de569f98200b1a366db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 32/48] fix: an element of a batch that is no dict does not
 keep the others from being placed

---
 jqtrade/account/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index ba08b08..5916923 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -137,12 +137,12 @@ def batch_submit_orders(orders):
     """
     order_ids = []
     for _order_info in orders:
-        _code = _order_info.get("code")
-        _amount = _order_info.get("amount")
-        _style = _order_info.get("style")
-        _side = _order_info.get("side")
-
         try:
+            _code = _order_info.get("code")
+            _amount = _order_info.get("amount")
+            _style = _order_info.get("style")
+            _side = _order_info.get("side")
+
             if _code is None:
                 raise InvalidParam(f"批量单缺少标的代码字段code，请检查订单信息: {_order_info}")
 
-- 
2.43.0


From 8a61635d32e461f5e1c91cb95d540bafcb56d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:49 +0000
Subject: [PATCH 33/48] fix: a callback that unregisters itself does not make
 the bus skip the next one

---
 jqtrade/scheduler/bus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/bus.py b/jqtrade/scheduler/bus.py
index 083b1fb..11a8e6a 100644
--- a/jqtrade/scheduler/bus.py
+++ b/jqtrade/scheduler/bus.py
@@ -51,12 +51,13 @@ class EventBus(object):
             event: event_class实例
         """
         ret = []
-        for _event_cls in self._subscribes:
+        # 遍历副本，回调函数中可能会注册或取消注册回调函数
+        for _event_cls in list(self._subscribes):
             if not isinstance(event, _event_cls):
                 continue
             _event_subscribes = self._subscribes.get(_event_cls, {})
             for _priority in sorted(_event_subscribes, reverse=True):
-                for _callback in _event_subscribes[_priority]:
+                for _callback in list(_event_subscribes[_priority]):
                     logger.debug(f"emit event: {event}, callback: {_callback.__name__}")
                     ret.append(_callback(event))
         return ret
-- 
2.43.0


From 4a9f172614198939a87af02f67a3a28d35193485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 34/48] fix: an order report without the optional side keeps
 the order's side

---
 jqtrade/account/account.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 6487a9d..19154f7 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -246,6 +246,9 @@ class Account(AbsAccount):
             for _order_info in orders:
                 _order_id = str(_order_info["order_id"])
                 _local_order = self._orders.get(_order_id)
+                if _local_order is not None:
+                    # side不是交易接口的必填字段，未返回时沿用本地订单的方向
+                    _order_info = {"side": _local_order.side, **_order_info}
                 _remote_order = Order.load(**_order_info)
                 if _local_order is None:
                     if self.has_synced:
-- 
2.43.0


From 73b95aff773634054c8cf0d33284c5968b59ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 35/48] fix: an order never gets the id of an order already
 known

---
 jqtrade/account/account.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 19154f7..f961d14 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -164,6 +164,9 @@ class Account(AbsAccount):
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
+        while order_id in self._orders:
+            # 随机数有极小概率重复，避免覆盖已有订单
+            order_id = str(generate_unique_number())
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-- 
2.43.0


From 28dd5cc9d644a8b6a6d5d309c8d0180430dd7ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 36/48] fix: functions of a configuration file can use the
 file's own names

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index a05bb2d..e4e9138 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -33,7 +33,7 @@ class AccountConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    exec(open(path).read(), configs)
 
     account_configs = {}
     for _name in configs:
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index 7fa99a8..acebc30 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -39,7 +39,7 @@ class SchedulerConfig(object):
 
 def _load_config(path):
     configs = {}
-    exec(open(path).read(), {}, configs)
+    exec(open(path).read(), configs)
 
     scheduler_configs = {}
     for _name in configs:
-- 
2.43.0


From 8773652b5d9e309f86a7b39fdf04daa5afefd820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 37/48] fix: run_daily checks where it is called and what it is
 given before it uses the function's name

---
 jqtrade/scheduler/strategy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f07958..edb6dc8 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -131,13 +131,13 @@ class Strategy(object):
             self._schedule_count += 1
 
     def run_daily(self, func, time):
-        logger.info(f"run_daily. func={func.__name__}, time={time}")
         if not self._is_scheduler_allowed:
             raise InvalidCall('run_daily函数只允许在process_initialize中调用')
 
-        time = self.TIME_DICT.get(time) or time
-
         module, name = self._check_handle(func)
+        logger.info(f"run_daily. func={name}, time={time}")
+
+        time = self.TIME_DICT.get(time) or time
 
         desc = {
             'module': module,
-- 
2.43.0


From 86c1197378e41c50ceed81d75c3c03d170a45e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 38/48] fix: print with file=None goes to the log file like
 print without file

---
 jqtrade/scheduler/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/api.py b/jqtrade/scheduler/api.py
index 7fa9c6b..3fe4428 100644
--- a/jqtrade/scheduler/api.py
+++ b/jqtrade/scheduler/api.py
@@ -32,7 +32,7 @@ def strategy_print(*args, **kwargs):
 
     kwargs.setdefault("flush", True)
 
-    if ctx.out and "file" not in kwargs:
+    if ctx.out and kwargs.get("file") is None:
         with open(ctx.out, "a") as wf:
             kwargs["file"] = wf
             print(*args, **kwargs)
-- 
2.43.0


From 1936e876b09a89e1696f789a97d014e6a8f87e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 39/48] fix: prints go to the same log file after the strategy
 changed its working directory

---
 jqtrade/scheduler/runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 925772a..7dbf1ce 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -53,6 +53,8 @@ class TaskRunner(object):
         self._debug = debug
         log_level = "DEBUG" if debug else "INFO"
         self._out_file = out_file
+        # 策略可能会改变工作目录，print需要始终写入同一个日志文件
+        self._print_file = os.path.abspath(out_file) if out_file else out_file
         if out_file:
             setup_file_logger(out_file, log_level)
         else:
@@ -86,7 +88,7 @@ class TaskRunner(object):
                           loader=Loader(self._code_file),
                           debug=self._debug,
                           config=self._config,
-                          out=self._out_file)
+                          out=self._print_file)
 
         strategy = Strategy(context)
         strategy.setup()
-- 
2.43.0


From a75249f942d0c8bb4b3e301f6308dab44d4fbdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 40/48] fix: print accepts a file object without flush like the
 built-in print

---
 jqtrade/scheduler/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/api.py b/jqtrade/scheduler/api.py
index 3fe4428..b886149 100644
--- a/jqtrade/scheduler/api.py
+++ b/jqtrade/scheduler/api.py
@@ -30,9 +30,11 @@ class UserContext(object):
 def strategy_print(*args, **kwargs):
     ctx = Context.get_instance()
 
-    kwargs.setdefault("flush", True)
+    file = kwargs.get("file")
+    # 与内置print一致，用户自定义的file对象可以只有write方法
+    kwargs.setdefault("flush", file is None or hasattr(file, "flush"))
 
-    if ctx.out and kwargs.get("file") is None:
+    if ctx.out and file is None:
         with open(ctx.out, "a") as wf:
             kwargs["file"] = wf
             print(*args, **kwargs)
-- 
2.43.0


From f132e0b1d1a68fac6d0236e2fe95a6729581b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 41/48] fix: order directory, strategy directory and
 configuration file stay the same when the strategy changes its working
 directory

---
 jqtrade/account/trade_gate.py | 3 ++-
 jqtrade/scheduler/loader.py   | 4 ++--
 jqtrade/scheduler/runner.py   | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index d328a14..0cdff35 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -568,7 +568,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         logger.info("setup trade gate")
         self._options = options
 
-        self._order_dir = self._options.get("order_dir", self.DEFAULT_ORDER_DIR)
+        # 策略可能会改变工作目录，相对路径以初始化时的工作目录为准
+        self._order_dir = os.path.abspath(self._options.get("order_dir", self.DEFAULT_ORDER_DIR))
         logger.info(f"安信one quant文件单路径: {self._order_dir}")
         if not os.path.exists(self._order_dir):
             raise FileNotFoundError(f"文件单目录不存在（{self._order_dir}），请检查是否已开启安信one quant并打开文件单导出选项")
diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index 6a199ef..a46b037 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -18,8 +18,8 @@ class Loader(object):
     def __init__(self, path):
         self.code_dir, self.code_file = os.path.split(path)
 
-        if self.code_dir == "":
-            self.code_dir = "."
+        # 策略可能会改变工作目录，需要始终能导入策略代码所在目录的模块
+        self.code_dir = os.path.abspath(self.code_dir)
 
     def load(self):
         logger.info(f"加载用户策略代码，code_dir={self.code_dir}，code_file={self.code_file}")
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 7dbf1ce..790ece2 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -70,6 +70,7 @@ class TaskRunner(object):
             path = os.path.abspath(os.path.expanduser(config))
             if not os.path.exists(path):
                 raise FileNotFoundError(f"找不到自定义配置文件: {path}")
+            config = path
         self._config = config
 
     def run(self):
-- 
2.43.0


From 00d65b00bbb2b4a8cda6bd2deb4f13cff40d9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 42/48] fix: an exception object that is false in a boolean
 context ended the run without an error

---
 jqtrade/scheduler/loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 3dcc018..e0016e4 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -55,7 +55,7 @@ class EventLoop(object):
         self.setup()
         self._uvloop.run()
 
-        if self._exception:
+        if self._exception is not None:
             raise self._exception
 
     def stop(self):
-- 
2.43.0


From dac49121f0a98bf567de9be16b48677f0e59b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 43/48] fix: an exception whose text cannot be produced ended
 the run without an error

---
 jqtrade/scheduler/loop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index e0016e4..1edc39d 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -113,10 +113,11 @@ class EventLoop(object):
             self._strategy_time = message.time
             message.callback(**message.callback_data)
         except BaseException as e:
-            logger.exception(f"handle message failed. message={message}, error={e}")
-            e.tb = traceback.format_exc()
+            # 先记录异常并停止事件循环，避免异常对象无法转换为字符串时丢失该异常
             self._exception = e
             self.stop()
+            logger.exception(f"handle message failed. message={message}, error={e}")
+            e.tb = traceback.format_exc()
 
     def _notify_loop(self):
         self._loop_notifier.send()
-- 
2.43.0


From 229a30439774f4da88bb9a383ae1f18831df1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 44/48] fix: relative PYTHONPATH entries of the environment
 option were lost after a change of directory

---
 jqtrade/scheduler/runner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 790ece2..f2287a4 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -64,7 +64,8 @@ class TaskRunner(object):
         os.environ.update(self._env)
         if "PYTHONPATH" in self._env:
             for _py_path in reversed(self._env["PYTHONPATH"].split(":")):
-                sys.path.insert(0, _py_path)
+                # 策略可能会改变工作目录，相对路径以启动时的工作目录为准
+                sys.path.insert(0, os.path.abspath(_py_path))
 
         if config:
             path = os.path.abspath(os.path.expanduser(config))
-- 
2.43.0


From f77e21861a0c5f0fcdd410df03d360e3ca75e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 45/48] fix: load exactly the strategy file given, also when
 its name has dots or equals that of another module

---
 jqtrade/scheduler/loader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jqtrade/scheduler/loader.py b/jqtrade/scheduler/loader.py
index a46b037..6999439 100644
--- a/jqtrade/scheduler/loader.py
+++ b/jqtrade/scheduler/loader.py
@@ -1,7 +1,9 @@
 # -*- coding: utf-8 -*-
 import os
 import sys
+import inspect
 import importlib
+import importlib.util
 
 from ..common.log import sys_logger
 
@@ -25,6 +27,15 @@ class Loader(object):
         logger.info(f"加载用户策略代码，code_dir={self.code_dir}，code_file={self.code_file}")
         sys.path.insert(0, self.code_dir)
 
-        module_name = self.code_file.split(".")[0]
-        module = importlib.import_module(module_name)
+        path = os.path.join(self.code_dir, self.code_file)
+        module_name = None if os.path.isdir(path) else inspect.getmodulename(path)
+        if not module_name:
+            module_name = self.code_file.split(".")[0]
+            return importlib.import_module(module_name)
+
+        # 文件名可能包含"."，或者与已经导入的模块同名，需要保证加载的是用户指定的文件
+        spec = importlib.util.spec_from_file_location(module_name, path)
+        module = importlib.util.module_from_spec(spec)
+        sys.modules.setdefault(module_name, module)
+        spec.loader.exec_module(module)
         return module
-- 
2.43.0


From 235c2162edea61ce8a6f6f69f69e90e9efb2d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 46/48] fix: the documented name OrderStatus was not available
 to strategies

---
 jqtrade/account/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/api.py b/jqtrade/account/api.py
index 5916923..4c87fc1 100644
--- a/jqtrade/account/api.py
+++ b/jqtrade/account/api.py
@@ -328,7 +328,7 @@ class UserPosition(object):
 
 
 __all__ = [
-    "LimitOrderStyle", "MarketOrderStyle",
+    "LimitOrderStyle", "MarketOrderStyle", "OrderStatus",
     "order", "cancel_order",
     "batch_submit_orders", "batch_cancel_orders",
     "get_orders",
-- 
2.43.0


From b15b79d9edba30694ea528cb1c91d9bd40d2f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 47/48] fix: a task that had started another task or forked a
 process was hidden from listing, stopping and the name check

---
 jqtrade/scheduler/utils.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index aff5eef..6cb2f46 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -58,12 +58,13 @@ def get_activate_task_process():
     import psutil
     try:
         task_process = []
-        parent_pid = []
+        parents = {}
         for _p in psutil.process_iter():
             try:
-                if is_start_task(_p.cmdline()):
+                _cmd_line = _p.cmdline()
+                if is_start_task(_cmd_line):
+                    parents[_p.pid] = (_p.ppid(), _cmd_line, parse_task_info(_cmd_line)["name"])
                     task_process.append(_p)
-                    parent_pid.append(_p.ppid())
             except psutil.AccessDenied:
                 if 'python' in _p.name():
                     raise
@@ -74,8 +75,21 @@ def get_activate_task_process():
             except psutil.NoSuchProcess:
                 pass
 
+        # 名称相同且互为父子的进程属于同一任务：命令行相同的是策略进程fork出的子进程，命令行不同时父进程只是启动程序
+        # 名称不同时是两个独立的任务
+        children, starters = set(), set()
+        for _pid, (_ppid, _cmd_line, _name) in parents.items():
+            if _ppid not in parents or parents[_ppid][2] != _name:
+                continue
+            if parents[_ppid][1] == _cmd_line:
+                children.add(_pid)
+                continue
+            while _ppid in parents and parents[_ppid][2] == _name and _ppid not in starters:
+                starters.add(_ppid)
+                _ppid = parents[_ppid][0]
+
         for _p in task_process:
-            if _p.pid in parent_pid:
+            if _p.pid in children or _p.pid in starters:
                 continue
             active_tasks.append(_p)
         return active_tasks
-- 
2.43.0


From 63125e531d0a99425ddfbb11e51c533495a82cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 48/48] fix: an order placed just before midnight went to the
 next day's order file while it was persisted for the old day, and was
 forgotten by a restart

---
 jqtrade/account/trade_gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 0cdff35..ec42db3 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -608,7 +608,8 @@ class AnXinDMATradeGate(AbsTradeGate):
 
     @property
     def _order_csv(self):
-        return os.path.join(self._order_dir, f"algoOrder_{self._date.strftime('%Y%m%d')}.csv")
+        # 与本地缓存文件使用同一日期，避免恰好跨日时委托和缓存写入不同日期的文件，重启后丢失该订单
+        return os.path.join(self._order_dir, f"algoOrder_{self._data_date.strftime('%Y%m%d')}.csv")
 
     @property
     def _cancel_csv(self):
-- 
2.43.0

