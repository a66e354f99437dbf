"""The AnXin one-quant file interface as the broker's side sees it: writes the export files, reads the order files.
Independent of the code under test (README and the file formats only)."""
import csv
import io
import os

ORDER_HEADER = ("updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,"
                "lowLimitPrice")
CANCEL_HEADER = "updTime,custBatchNo"
RESULT_HEADER = "updTime,resultType,custBatchNo,status,errorCode,errorMsg"
UPDATE_COLS = ["updTime", "orderDate", "orderTime", "acctType", "acct", "symbol", "tradeSide", "status", "orderQty",
               "orderPrice", "orderType", "filledQty", "avgPrice", "filledAmt", "cancelQty", "orderNo", "corrId",
               "custBatchNo", "text", "cliOrderId"]
UPDATE_HEADER = ",".join(UPDATE_COLS)
ASSET_COLS = ["updTime", "acctType", "acct", "exchange", "totalAsset", "currentBalance", "enabledBalance", "mktValue"]
POSITION_COLS = ["updTime", "acctType", "acct", "symbol", "currentQty", "enabledQty", "costPrice", "lastPrice", "mktValue"]
STATUS = {"0": "open", "1": "filling", "2": "filled", "3": "partly_canceled", "4": "canceled", "5": "rejected", "7": "new",
          "8": "canceling"}
FINAL = ("2", "3", "4", "5")


def day8(day):
    return day.strftime("%Y%m%d")


def path(d, kind, day):
    return os.path.join(d, "%s_%s.csv" % (kind, day8(day)))


def symbol(code):
    return code[:-4] + {"XSHE": "SZ", "XSHG": "SH"}[code[-4:]]


def code(sym):
    return sym[:-2] + {"SZ": "XSHE", "SH": "XSHG"}[sym[-2:]]


def csv_text(cols, rows, end=True):
    """rows: dicts; the last row of a complete export is empty"""
    out = [",".join(cols)]
    for r in rows:
        out.append(",".join("" if r.get(c) is None else str(r[c]) for c in cols))
    if end:
        out.append("," * (len(cols) - 1))
    return "\n".join(out) + "\n"


def write(p, data, mode="wb"):
    if isinstance(data, str):
        data = data.encode("utf-8")
    with open(p, mode) as f:
        f.write(data)


def replace(p, data):
    """as an exporter that writes a new file and renames it"""
    write(p + ".part", data)
    os.rename(p + ".part", p)


def update_line(day, oid, acct="1", sym="000001.SZ", side=1, status="0", qty=100, price=10, filled=0, avg=0, amt=0, cancel=0,
                no="B1", text="", time="093001", corr="c", cli="x", upd="093001123", atype="UM0", otype="0"):
    return ",".join(str(x) for x in (upd, day8(day), time, atype, acct, sym, side, status, qty, price, otype, filled,
                                     avg, amt, cancel, no, corr, oid, text, cli))


def result_line(oid, rtype="1", status="1", err="", code_="0", upd="093001123"):
    return ",".join(str(x) for x in (upd, rtype, oid, status, code_, err))


def read_lines(p, header):
    """-> (list of field lists, list of complaints); reads the file the way an independent program would"""
    if not os.path.exists(p):
        return [], []
    with open(p, "rb") as f:
        raw = f.read()
    bad = []
    if not raw:
        return [], ["%s is empty, without a header" % os.path.basename(p)]
    text = raw.decode("utf-8", "surrogateescape")
    if not text.endswith(os.linesep):
        bad.append("the last line of %s is not complete: %r" % (os.path.basename(p), text[-60:]))
    lines = text.split(os.linesep)
    if lines[-1] == "":
        lines.pop()
    if lines[0] != header:
        bad.append("the first line of %s is not the header: %r" % (os.path.basename(p), lines[0]))
    rows = []
    n = len(header.split(","))
    for x in lines[1:]:
        if x == header:
            bad.append("a second header in %s" % os.path.basename(p))
            continue
        f = x.split(",")
        if len(f) != n:
            bad.append("a damaged line in %s: %r" % (os.path.basename(p), x))
            continue
        rows.append(f)
    return rows, bad


def read_orders(d, day):
    return read_lines(path(d, "algoOrder", day), ORDER_HEADER)


def read_cancels(d, day):
    return read_lines(path(d, "algoOrderStop", day), CANCEL_HEADER)


def expect_order(oid, o, counter="UM0", acct="1", algo="DMA"):
    """fields (without updTime) of the line for a successful order o = {code, amount, price or None}"""
    side = "1" if o["amount"] > 0 else "2"
    if o.get("price") is None:
        tail = ["P6" if o["amount"] > 0 else "P7", 0.0, 0.0, 0.0]
    else:
        tail = ["AT", 0.0, float(o["price"]), float(o["price"])]
    return [oid, counter, str(acct), symbol(o["code"]), side, str(abs(o["amount"])), algo] + tail


def order_fields(row):
    """a parsed line without updTime, numbers as floats; None when a number is not one"""
    try:
        return row[1:8] + [row[8], float(row[9]), float(row[10]), float(row[11])]
    except ValueError:
        return row[1:]
