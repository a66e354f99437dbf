#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the check modules that exist."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
A = "jqtrade/account/"
S = "jqtrade/scheduler/"
C = "jqtrade/common/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note, level="exploration", state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                           "mechanism": [dict(name=n, where=w) for n, w in mech], "observe_at": list(observe),
                           "hook_needed": None},
                  tech=tech, note=note, level=level))


VT = "The real start_task command runs in a forked process whose clocks and waits are virtual (LD_PRELOAD shim)."

prop("C01", "Every scheduled task runs exactly once per due time, for as long as it runs",
     "Once start-up is over, every task registered with run_daily runs exactly once for each of its due times, every day, "
     "for as long as the process runs. It never runs before the due time, and a slow callback, a late wake-up, a "
     "suspended machine or a clock change only delays it.",
     ["schedules", "inputs", "configurations"],
     "all sets of tasks and time expressions, market periods, start instants, run lengths (beyond a year), callback "
     "durations, late wake-ups, suspensions and wall-clock steps",
     "The tests replay two or three fixed tasks over a few days in history mode; they never run the live clock over a "
     "midnight, past the 365 generated days, or with slow callbacks.",
     [S + "event_source.py", S + "loop.py", S + "queue.py", S + "strategy.py"],
     [("events are generated day by day and one is queued ahead per task", S + "event_source.py EventSource, EventSourceScheduler"),
      ("the loop waits until a message is due and re-checks", S + "loop.py EventLoop.check_queue")],
     "model-based property testing of the real process under virtual time",
     VT + " Firings are compared with a reference schedule. Trusts the reference model and the shim; the search is random.")

prop("C02", "Callbacks run one at a time in schedule order",
     "Callbacks of a strategy never overlap and run in the order of their due times; at the same instant the account "
     "synchronisation comes before every_minute tasks, those before other tasks, and equal tasks run in the order they "
     "were registered. Inside a callback, the strategy time is its due time and the current time is not earlier than it.",
     ["schedules", "inputs"],
     "all sets of tasks and synchronisation schedules with coinciding due times, and all callback durations",
     "The tests look at a handful of events with distinct times and instant callbacks.",
     [S + "loop.py", S + "queue.py", S + "message.py", S + "event.py", S + "event_source.py", A + "account.py"],
     [("messages are ordered by time, priority and sequence number", S + "message.py Message.sort_key"),
      ("event priorities", S + "event.py EventPriority")],
     "model-based property testing of the real process under virtual time",
     VT + " The order of the recorded callbacks is compared with the reference order.")

prop("C03", "A time expression or market period means what is documented, or start-up fails",
     "Every documented time expression (clock time, open/close with an offset, named times, every_minute) makes a task due at exactly the time "
     "it denotes under the market period in force. An expression or market period that is not valid makes the start fail "
     "with an error before any task runs.",
     ["inputs", "configurations"],
     "all strings as time expressions, all market periods (strings or time objects, from options or configuration)",
     "The tests parse a few expressions and never run one that is invalid or a market period of their own.",
     [S + "event_source.py", S + "strategy.py", C + "utils.py"],
     [("expression parsing", S + "event_source.py TimeExprParser, EventSource.expr_to_time, add_event"),
      ("options parsing", S + "strategy.py Strategy.set_options, schedule")],
     "grammar-based generation and mutation of expressions against a reference parser, run through the real process",
     VT + " One simulated day or two per expression set.")

prop("C04", "A replay run fires exactly the events of its window and then ends by itself",
     "With a start and an end in the past, a run fires every event due in the closed interval from start to end exactly "
     "once, in order, with the due time as strategy time, whatever the wall clock says. When nothing is left it returns by itself.",
     ["inputs", "schedules"],
     "all windows, also ones that begin or end exactly on a due time, all task sets and wall-clock starts",
     "The tests use a fixed window and do not look at its borders.",
     [S + "event_source.py", S + "loop.py", S + "context.py"],
     [("window filter", S + "event_source.py EventSource.add_event, _get_days"),
      ("empty queue ends the loop", S + "loop.py EventLoop.check_queue")],
     "model-based property testing of replay runs against a reference schedule",
     "Runs the scheduler's components the way the repository's own tests wire them up for history mode.")

prop("C05", "A failing callback ends the run with its error; a stop signal ends it cleanly",
     "When a callback raises an exception, nothing else runs and the start command fails with that exception. On SIGTERM "
     "or SIGINT the callback in progress is completed, nothing is started afterwards, and the command returns normally.",
     ["histories", "schedules", "fault_sequences"],
     "all exceptions, all points in a schedule at which a callback fails or a signal arrives (idle, inside a callback, with late tasks queued)",
     "The tests stop the loop at one fixed point and raise no exception out of a callback.",
     [S + "loop.py", S + "strategy.py", S + "runner.py"],
     [("exception capture and re-raise", S + "loop.py EventLoop.handle_message, run"),
      ("signal handlers", S + "loop.py EventLoop.setup, handle_signal, stop")],
     "fault injection at generated points of simulated runs",
     VT + " Signals are sent by the process to itself at exact virtual instants.")

prop("C06", "The order files hold exactly what was ordered",
     "Every order the strategy places successfully appears in the day's order file as exactly one line with its id, account, "
     "security, side, quantity and price as requested, in the order placed, below one header line; a rejected or invalid order leaves no line. Every "
     "cancellation of a known order appears as exactly one line with that order's id in the cancel file, and nothing else is ever written there.",
     ["inputs", "histories", "configurations"],
     "all sequences of order, cancel and batch calls with all codes, amounts, styles, prices and gate options",
     "The tests place one or two orders with default options.",
     [A + "api.py", A + "account.py", A + "trade_gate.py"],
     [("order and cancel lines", A + "trade_gate.py AnXinDMATradeGate.order, cancel_order, _write"),
      ("amount sign to side", A + "account.py Account.order")],
     "stateful property testing against a model of the order files",
     VT + " The files are parsed by an independent reader.")

prop("C07", "Concurrent writers never damage or lose lines of the shared order file",
     "When several strategies write to the same order directory at once, every accepted order is one intact line of the file, "
     "the header appears once and first, and no line is lost or doubled. While another program holds the file's lock, an order waits "
     "and, after the configured time-out, fails without leaving a line.",
     ["schedules", "fault_sequences", "configurations"],
     "all numbers of writers, orders per writer, interleavings, lock holders and time-outs",
     "The tests have a single writer.",
     [A + "trade_gate.py"],
     [("file lock with retry and time-out", A + "trade_gate.py AnXinDMATradeGate._write")],
     "stress and schedule generation: writers paused by an injected lock holder, real concurrent processes",
     "Interleavings are steered at the lock (a file held open before the header exists) and also left to the kernel; not exhaustive.")

prop("C08", "Invalid orders and queries are refused with InvalidParam and have no effect",
     "An order with an invalid code, amount, style or side, and a query with an invalid code or status, raises InvalidParam; "
     "no order is recorded, nothing is sent to the broker and no position changes. Every valid one is accepted.",
     ["inputs"],
     "all values of every argument, valid and invalid, in all combinations",
     "The tests try a handful of bad values.",
     [A + "api.py", A + "order.py"],
     [("argument checks", A + "api.py _check_code, _check_amount, _check_style, _check_side, _check_status")],
     "property testing of argument combinations against a reference validity predicate",
     VT + " Booleans and numpy integers as amounts are left open.")

prop("C09", "Broker order reports are mirrored exactly, however the files are written",
     "After a synchronisation, each own order shows exactly the state of the last complete report line about it (status, filled, "
     "cancelled, cost, turnover, entrust time, broker id, message), or the rejection reported for it. Lines of other strategies, torn, blank or malformed lines and half-written "
     "files never change an order, never stop later lines from being taken over, and never make the synchronisation hang. A malformed line that the broker corrects is taken over by the next "
     "synchronisation with ignore_error_line off (which may hold up the lines behind it until then), and after a restart otherwise.",
     ["inputs", "histories", "fault_sequences"],
     "all report histories, all ways of cutting the growing files into pieces between synchronisations (any byte, any encoding), all malformed lines",
     "The tests read complete, well-formed files once.",
     [A + "trade_gate.py", A + "account.py", A + "order.py"],
     [("incremental reading with offsets", A + "trade_gate.py AnXinDMATradeGate.sync_orders, _update_order"),
      ("taking over changes", A + "account.py Account.sync_orders; " + A + "order.py Order.__eq__")],
     "model-based fuzzing of chunked, torn and mutated report files",
     VT + " Cuts at arbitrary bytes; a hang is a CPU limit.")

prop("C10", "No crash or full disk makes the strategy forget an order it sent",
     "After a crash at any point and a restart on the same day, every order that reached the order file is known again with its "
     "original data, and shows the broker's state after the first synchronisation. The persisted order list is at every moment "
     "a complete earlier or later version, never a damaged one, and a failing write makes the order fail rather than be forgotten. "
     "Strategies that share their directories do not disturb one another's orders.",
     ["crash_points", "fault_sequences", "histories"],
     "all operation sequences, every file operation as crash point (also in the middle of a write), every write failing with ENOSPC or EIO; a second strategy that acts at any moment of a write",
     "The tests restart nothing.",
     [A + "trade_gate.py"],
     [("write to a temporary file and rename", A + "trade_gate.py AnXinDMATradeGate._save_orders"),
      ("persist before sending", A + "trade_gate.py AnXinDMATradeGate.order"),
      ("reload at start", A + "trade_gate.py AnXinDMATradeGate._load_orders")],
     "systematic crash-point and write-fault injection below generated order sequences",
     VT + " Crashes are process deaths between or inside file operations; power loss without fsync is not covered.",
     level="fault_enumeration")

prop("C11", "Trading goes on unchanged across midnight",
     "In a process that runs for several days, orders, cancellations, order reports, balances and the persisted order list "
     "use the files of the current day from midnight on, and the new day's reports are read from their beginning. Orders known before stay visible, "
     "and a restart on any day recovers that day's orders.",
     ["histories", "schedules"],
     "all histories of orders, reports and restarts over several days, with the previous day's files longer or shorter than the new ones",
     "The tests never cross a midnight.",
     [A + "trade_gate.py"],
     [("dated file names", A + "trade_gate.py AnXinDMATradeGate._date and the *_csv properties"),
      ("switching files", A + "trade_gate.py AnXinDMATradeGate._check_date_changed")],
     "stateful property testing over simulated days against a model of the files",
     VT)

prop("C12", "Cash and positions shown are the account's in the latest complete export",
     "After a successful synchronisation, total value, available and locked cash and every position (code, amount, closeable and locked amount, "
     "cost, price, value) equal the account's rows of the current export, zero values included; positions that are gone or zero are not listed. "
     "Rows of other accounts never show up, and a security that is not held reads as an empty position.",
     ["inputs", "histories", "configurations"],
     "all exports: accounts, exchanges, values, row orders; all sequences of exports",
     "The tests read one fixed export.",
     [A + "trade_gate.py", A + "account.py", A + "portfolio.py", A + "position.py", A + "api.py"],
     [("reading the exports", A + "trade_gate.py AnXinDMATradeGate.sync_balance"),
      ("full replacement", A + "account.py Account.sync_balance"),
      ("views", A + "portfolio.py Portfolio; " + A + "api.py UserPosition, UserPositionDict")],
     "model-based property testing with generated exports",
     VT + " Numbers are compared after the documented rounding, with a tolerance of half a unit in the last place.")

prop("C13", "A broken or half-written balance export changes nothing and heals by itself",
     "When a balance cannot be read completely (files missing, torn at any byte, without the account, or a failing trade gate), the strategy keeps running and "
     "cash and positions stay as they were after the last good synchronisation. An export that becomes complete within the "
     "configured retries is taken over in the same synchronisation, and otherwise by the next one.",
     ["fault_sequences", "inputs", "histories"],
     "all histories of good, torn, missing and repaired exports and failing gate calls, all retry settings",
     "The tests never tear a file.",
     [A + "trade_gate.py", A + "account.py", C + "utils.py"],
     [("completeness mark (empty last row)", A + "trade_gate.py AnXinDMATradeGate._read_csv"),
      ("retry", C + "utils.py simple_retry"), ("containment", A + "account.py Account.sync_balance")],
     "fault injection into generated exports, torn at generated bytes and repaired at generated instants",
     VT)

prop("C14", "The account is synchronised in the background at the configured pace, every day",
     "With synchronisation on, balance and orders are synchronised at start-up and then every interval, inside the configured "
     "periods only (both ends included), all day if none is configured, on every day of the run. What is switched off is never synchronised in the background.",
     ["schedules", "configurations"],
     "all intervals, periods, switches, start instants (also just before midnight) and run lengths",
     "The tests start a synchronisation once and never look at a second day.",
     [A + "account.py", S + "event_source.py", S + "strategy.py"],
     [("timer set-up", A + "account.py Account.setup, _setup_sync_timer")],
     "model-based property testing of the real process under virtual time",
     VT + " The phase of the interval is free; the gap between synchronisations is what is checked.")

prop("C15", "Closing orders reserve closeable amount at once, and only they do",
     "A successful closing order lowers the closeable amount of the position of its code and side by its quantity, not below zero, at once; opening orders, "
     "failed orders and cancellations leave all positions unchanged. The next synchronisation replaces every amount by the broker's.",
     ["histories", "inputs"],
     "all sequences of opening and closing orders on long and short positions, failures and synchronisations",
     "The tests place one closing order.",
     [A + "account.py", A + "position.py"],
     [("reservation", A + "account.py Account.on_order_created; " + A + "position.py Position.on_order_created")],
     "stateful property testing against a model account with a custom trade gate",
     VT)

prop("C16", "Order queries return exactly the matching orders",
     "get_orders returns exactly the known orders that match all the given filters (id, code, status), keyed by id, and "
     "each shows the values requested when it was placed and the state of the last synchronisation. The returned "
     "collection is a snapshot of the caller's own: later events do not change it, and changing it changes nothing in the account.",
     ["inputs", "histories"],
     "all sets of orders in all states, all filter combinations in all accepted forms, and caller mutations of the results",
     "The tests query a few orders with single filters.",
     [A + "api.py", A + "account.py", A + "order.py"],
     [("filtering", A + "api.py get_orders, UserOrder")],
     "property testing against a reference query over a model order book",
     VT)

prop("C17", "A batch is the same as its single orders, aligned and isolated",
     "A batch of orders has the effect of placing them one after the other and returns, in the same positions, the ids of those that succeeded and None "
     "for those that were invalid or failed. One bad element never affects the others, in placing or in cancelling.",
     ["inputs", "fault_sequences"],
     "all lists of order descriptions, valid and not (missing fields, wrong types), with all patterns of gate failures; all lists of ids to cancel",
     "The tests submit one batch of good orders and one bad element.",
     [A + "api.py"],
     [("batch loops", A + "api.py batch_submit_orders, batch_cancel_orders")],
     "differential property testing: a batch against single calls",
     VT)

prop("C18", "An order survives being saved and loaded",
     "Any order saved to its JSON form and loaded again has every field equal to the original, through an actual JSON text, "
     "and saving it again gives the same text.",
     ["inputs"],
     "all orders: every status, side, action, style, price, amount, time (with and without microseconds) and message",
     "The tests check one order.",
     [A + "order.py", C + "utils.py"],
     [("json and load", A + "order.py Order.json, load")],
     "round-trip property testing",
     "Runs in process; prices and amounts are finite numbers.")

prop("C19", "Listing and stopping tasks act on exactly the right processes",
     "get_tasks lists exactly the running strategy processes with their options: neither wrappers nor worker processes they fork, and tasks started by other tasks like any other. stop_task signals exactly those selected "
     "by name, pid or --all (SIGTERM, or SIGKILL with --force), never another process, and a process that vanishes meanwhile does not keep it from stopping the rest.",
     ["inputs", "configurations", "schedules"],
     "all process tables: tasks under all command-line forms and wrappers, tasks started by tasks, forked workers, look-alike processes, vanishing and inaccessible processes; all selections",
     "The tests parse three command lines and never look at a process table.",
     ["jqtrade/__main__.py", S + "utils.py"],
     [("process selection", S + "utils.py get_activate_task_process, parse_task_info"),
      ("signalling", "jqtrade/__main__.py stop_task, get_tasks")],
     "property testing over generated process tables with recording stand-ins",
     "psutil's process list is replaced by recording stand-ins: no real process is ever signalled.")

prop("C20", "A task name runs once per machine, and task info agrees with the command line",
     "start_task refuses to start when a task of the same name is already running, and starts otherwise. The name, code, log, "
     "environment and debug flag reported for a running task are those the start command itself took from that command line.",
     ["inputs", "configurations"],
     "all command lines start_task accepts (short, long, joined and abbreviated options, any order, any values) and all tables of running tasks",
     "The tests parse three command lines in one form.",
     [S + "runner.py", S + "utils.py", "jqtrade/__main__.py"],
     [("name check", S + "runner.py _exist_repeated_task"), ("command-line parsing", S + "utils.py parse_task_info")],
     "differential property testing: argument parser of the command against the task information",
     "The command's own parser is the oracle, reached through main().")

prop("C21", "The environment option sets exactly the variables given",
     "Every NAME=VALUE of the environment option, separated by semicolons, is in the strategy's environment with exactly "
     "that value before the strategy is loaded, and no other variable changes. The entries of PYTHONPATH among them are importable, first entry first.",
     ["inputs"],
     "all environment strings: blanks, empty values, '=' in values, repeated names, several path entries",
     "The tests do not run start_task with an environment.",
     [S + "runner.py", S + "utils.py"],
     [("parsing", S + "utils.py parse_env"), ("application", S + "runner.py TaskRunner.__init__")],
     "property testing of start_task against a reference parser",
     "Runs the real start_task in a forked process.")

prop("C22", "A custom configuration file takes effect exactly as written",
     "Every SCHEDULER_ and ACCOUNT_ setting of the file given with --config replaces the default of that name, all others "
     "keep their defaults, and options set by the strategy take precedence over both. The file may compute its values like any Python file, and if it is missing or raises, the start fails.",
     ["configurations", "inputs"],
     "all subsets and values of the documented settings and strategy options",
     "The tests load a configuration with one setting.",
     [S + "config.py", A + "config.py", S + "runner.py", S + "strategy.py", A + "account.py"],
     [("loading", S + "config.py setup_scheduler_config; " + A + "config.py setup_account_config"),
      ("precedence", S + "strategy.py Strategy.set_options; " + A + "account.py Account._setup_sync_timer")],
     "property testing of observable behaviour under generated configuration files",
     VT)

prop("C23", "API calls are refused outside the phase or set-up that allows them",
     "run_daily and set_options work inside process_initialize and raise InvalidCall anywhere else, without effect. Without the account module, every account "
     "call and the portfolio raise InvalidCall (a batch call may report its orders as failed instead); a strategy without process_initialize, without an account number, or whose process_initialize raises does not start.",
     ["histories", "configurations"],
     "all API functions, all phases (module load, process_initialize, scheduled callbacks) and account set-ups",
     "The tests call one function in one wrong place.",
     [S + "strategy.py", S + "context.py", A + "api.py"],
     [("phase flag", S + "strategy.py Strategy.setup, run_daily, set_options"),
      ("account guard", S + "context.py Context.account, trade_gate, portfolio")],
     "property testing of generated call placements through the real process",
     VT)

prop("C24", "Everything a strategy prints or logs arrives in order in the log file",
     "From process_initialize on: with a log file given, every print and log call of the strategy at or above the log level (INFO, with --debug DEBUG) is in that file, complete, once, in "
     "the order of the calls, even if the process dies right after, after what the file held before, and nothing of it goes to standard output; without one it goes to standard output. A log record shows its level and the wall-clock time of the call. print keeps the meaning of its arguments (sep, end, file).",
     ["inputs", "configurations"],
     "all sequences of print and log calls with all texts and print arguments, with and without log file and debug mode",
     "The tests do not read the output.",
     [S + "api.py", C + "log.py", S + "runner.py", S + "strategy.py"],
     [("print redirection", S + "api.py strategy_print"), ("loggers", C + "log.py setup_logger, setup_file_logger")],
     "property testing: generated output against the expected text",
     "Runs the real start_task in a forked process; characters the locale's encoding can represent.")

prop("C25", "The event queue and bus deliver everything once, in priority order",
     "The queue returns every pushed item exactly once, smallest key first, and keeps this under concurrent use; messages "
     "come out by time, then priority, then creation. The bus calls every callback registered for an event's class or a base class, and no other, "
     "those of one class by priority and then in registration order, and returns their results in the order of the calls.",
     ["histories", "schedules", "inputs"],
     "all sequences of push, pop, top, register, unregister and emit; concurrent pushes and pops",
     "The tests push three items and emit one event.",
     [S + "queue.py", S + "bus.py", S + "message.py"],
     [("heap with lock", S + "queue.py PriorityQueue, ThreadSafeQueue"), ("subscriptions", S + "bus.py EventBus")],
     "stateful property testing against a sorted-list and a list-of-subscriptions model",
     "In process; thread interleavings are provoked with a tiny switch interval, not enumerated.")

prop("C26", "A retried call is attempted exactly as often as configured",
     "A call wrapped for retry returns the first successful result, makes at most one attempt plus the configured number of retries, waits the configured time "
     "between attempts, and then raises the last error. An error the filter does not accept is raised at once.",
     ["inputs", "fault_sequences"],
     "all failure patterns, attempt limits, waits and filters",
     "The tests try one failing function.",
     [C + "utils.py"],
     [("retry loop", C + "utils.py simple_retry")],
     "property testing against a reference interpreter under virtual time",
     "Virtual time makes the waits exact.")

prop("C27", "Trade-gate failures stay contained and custom gates are mirrored",
     "Whatever a trade gate raises while ordering, cancelling or synchronising, the strategy process goes on: a failed order returns None and is not left active, "
     "a failed cancellation returns, a failed synchronisation keeps the previous state and later ones work. What a custom gate reports through "
     "the documented interface is what the strategy sees, and the gate receives exactly what was ordered.",
     ["fault_sequences", "histories"],
     "all histories of orders, cancellations and synchronisations with gate failures at any call and all documented report contents (optional fields present or not)",
     "The tests use the built-in gate on good files.",
     [A + "account.py", A + "order.py", A + "position.py", A + "trade_gate.py"],
     [("containment", A + "account.py Account.order, cancel_order, sync_balance, sync_orders"),
      ("gate interface", A + "trade_gate.py AbsTradeGate")],
     "stateful property testing with a fault-injecting model gate",
     VT)

prop("C28", "Order ids are unique",
     "Orders placed by one strategy or by several at the same time have different ids, so that no order ever takes the place of another.",
     ["histories", "schedules"],
     "all numbers of orders and all processes placing them, restarted and forked ones included",
     "The tests place two orders.",
     [C + "utils.py", A + "account.py"],
     [("random 32-bit number", C + "utils.py generate_unique_number")],
     "statistical property testing of generated ids across processes, times and seeds",
     "Ids are 32-bit random numbers: the check allows the collisions chance explains (expected 0.05 in 20000).")

prop("C29", "Relative paths keep their meaning when the strategy changes directory",
     "Strategy, log, configuration file, PYTHONPATH entries, order directory and runtime directory given as relative paths mean the same place for the whole run, whatever the strategy does to its working directory: "
     "orders, cancellations, synchronisation, persisted orders, imports and log output are as without the change.",
     ["histories", "configurations"],
     "all histories of operations with changes of the working directory at all points, across midnight and restarts",
     "The tests never change the directory.",
     [S + "runner.py", S + "loader.py", S + "api.py", A + "trade_gate.py"],
     [("paths are made absolute", S + "runner.py TaskRunner.__init__; " + S + "loader.py Loader.__init__; " + A + "trade_gate.py AnXinDMATradeGate.setup")],
     "metamorphic testing: the same history with and without changes of directory",
     VT)

prop("C30", "start_task runs exactly the strategy file it was given",
     "Whatever its name and place, and whatever other files and modules of that name exist or are already loaded, the file given with --code is loaded exactly once, and its process_initialize and functions are the ones that run. "
     "Modules beside it can be imported at any time and come before equally named ones elsewhere on the path. "
     "If the file cannot be loaded, the start fails with that error and nothing runs.",
     ["configurations", "inputs"],
     "all file names and directories, surroundings with files and modules of the same or similar names, and points of import",
     "The tests load a few plainly named files with nothing similar around.",
     [S + "loader.py", S + "runner.py", S + "strategy.py"],
     [("loading", S + "loader.py Loader.load")],
     "generated file names and surroundings with decoys; oracle: which files were loaded and whose functions ran",
     VT)

prop("C31", "Real tasks start, are listed and stop exactly as commanded, side by side",
     "With real processes, signals and time: any sequence of start_task, get_tasks, stop_task and interrupts leaves exactly the tasks running that were started and not stopped. Each runs its callbacks one by one at their due times; "
     "a stop or interrupt ends only the selected task, after the callback under way and with exit code 0 (at once with --force); and a name can be started again as soon as its task has ended, not before, and of several starts at the same moment at most one runs.",
     ["histories", "schedules"],
     "all sequences of commands for several tasks with equal, similar and different names, wrappers and forked workers, at all moments",
     "The tests start no real strategy process and stop none.",
     ["jqtrade/__main__.py", S + "runner.py", S + "utils.py", S + "loop.py", S + "strategy.py"],
     [("signals end the loop", S + "loop.py EventLoop.register_signal_callback, stop"), ("finding and signalling tasks", S + "utils.py get_activate_task_process; jqtrade/__main__.py stop_task")],
     "stateful property testing of real processes against a model of the running tasks",
     "Runs as an unprivileged user in a scratch directory; few cases, since it runs in real time. The virtual-time properties C01, C05, C19 and C20 search the same ground in depth.")


prop("C32", "The event loop runs everything pushed to it once, in due order, until it ends",
     "A message pushed or a call deferred, before the run, by a callback or from another thread, runs exactly once on the loop's thread with its arguments, never before its time and as soon as it is due and its turn has come: by time, then priority, then creation. "
     "The loop returns when nothing is left, at once when it is stopped (after the callback under way), when a callback raises (with that exception), or when an exit checker, asked with the current and the next due time before the loop waits, says so. "
     "A signal with a registered callback calls the callback registered last for it, once per signal.",
     ["schedules", "histories"],
     "all programs of messages, delays, priorities, nested and outside pushes, durations, stops, failures, exit checkers and signals",
     "The tests never run an event loop directly; interleavings of outside pushes and waits are never sampled.",
     [S + "loop.py", S + "queue.py", S + "message.py"],
     [("choice of the next message", S + "loop.py EventLoop.check_queue; " + S + "message.py Message.sort_key"), ("waking up", S + "loop.py EventLoop.push_message, stop; " + S + "queue.py ThreadSafeQueue")],
     "generated event-loop programs in virtual time (and with real threads), judged by invariants over the record",
     "Clocks and waits are virtual (LD_PRELOAD shim); pushes from outside happen while the loop waits or a callback runs. Cases with real threads run in real time.")


def main():
    checks, missing = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            cmd = "python3 check.py %s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick",
                           "thorough_cmd": cmd + " --tier thorough",
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"],
                           "level": p["level"], "level_note": p["note"]})
        else:
            missing.append({"property": p["id"], "reason": "The check is not built yet."})
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, (p["id"], p["statement"])
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("tech", "note", "level")},
                               ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py --help",
           "checks": checks, "not_applicable": missing,
           "notes": "Property-based testing and fuzzing (Hypothesis) of the real start_task process under virtual time; "
                    "see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
