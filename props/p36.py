"""P36 - exchange archives: what is imported is what the archive says; month ranges, labels, checksums; the download-to-store pipeline against an in-memory exchange."""
import hashlib
import importlib.util
import io
import os
import re
import sys
import types
import zipfile

import numpy as np
from hypothesis import strategies as st

from vlib.core import Facet, Skip, cmp_exact, expect_raises, quiet, require, sut
from vlib.gen import NS
from vlib.store import Scratch, month_bounds, rows as trade_rows_of

PROPERTY = "P36"
RULE = "a case counts if the archive has three rows or more, the month range spans a year boundary, or the pipeline stores at least one month"
ASSUMPTIONS = ["archives have the exchange's columns in their published order: id, price, quantity, quote quantity, time, buyer-maker flag[, best-match flag]",
               "the network library is replaced by an in-memory exchange: nothing is downloaded"]
SERVER = {}


def script():
    """the importer, loaded from the repository under test with a stand-in for the network library"""
    if "verif_binance2h5" in sys.modules:
        return sys.modules["verif_binance2h5"]
    import finmlkit
    req = types.ModuleType("requests")
    req.Session = Session
    had = sys.modules.get("requests")
    sys.modules["requests"] = req
    try:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(finmlkit.__file__))), "scripts", "binance2h5.py")
        spec = importlib.util.spec_from_file_location("verif_binance2h5", path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["verif_binance2h5"] = mod
        spec.loader.exec_module(mod)
    finally:
        if had is None:
            del sys.modules["requests"]
        else:
            sys.modules["requests"] = had
    return mod


class Response:
    def __init__(self, body):
        self.body = body
        self.status_code = 404 if body is None else 200
        self.headers = {"content-length": str(len(body or b""))}
        self.content = body

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def raise_for_status(self):
        if self.body is None:
            raise RuntimeError("not found")

    def iter_content(self, chunk_size=1):
        yield from (self.body[i:i + 40] for i in range(0, len(self.body), 40))


class Session:
    def get(self, url, **kw):
        answers = SERVER.get(url)
        if not answers:
            return Response(None)
        SERVER.setdefault("log", []).append(url)
        return Response(answers.pop(0) if len(answers) > 1 else answers[0])


# ---------------------------------------------------------------------------------------------------- one archive

HEADERS = {"um": "id,price,qty,quote_qty,time,is_buyer_maker", "cm": "id,price,qty,base_qty,time,is_buyer_maker", "spot": "id,price,qty,quoteQty,time,isBuyerMaker,isBestMatch",
           "old": "trade Id,price,qty,quoteQty,time,isBuyerMaker,isBestMatch"}


def csv_text(c):
    flag = {"camel": ("True", "False"), "lower": ("true", "false"), "upper": ("TRUE", "FALSE"), "num": ("1", "0")}[c["flag"]]
    lines = []
    for i, p, q, t, m in c["rows"]:
        price, qty = number(p * 0.25, c["digits"]), number(q / 64, c["digits"])
        f = [str(i), price, qty, number(p * 0.25 * q / 64, 8), str(t), flag[0] if m else flag[1]]
        lines.append(",".join(f + ([flag[0]] if c["best"] else [])))
    head = [HEADERS[c["layout"]] if c["best"] == (c["layout"] in ("spot", "old")) else HEADERS["spot" if c["best"] else "um"]] if c["header"] else []
    return c["eol"].join(head + lines) + (c["eol"] if c["end"] else "")


def number(v, digits):
    if digits == 0:
        return repr(v) if v != int(v) else str(int(v))
    return f"{v:.{max(digits, 8)}f}"


def write_zip(path, text, name, others, method):
    with zipfile.ZipFile(path, "w", compression=method) as z:
        for k in range(others):
            z.writestr(f"readme{k}.txt", "not a table\n1,2\n")
        z.writestr(name, text)


def check_archive(c):
    m = script()
    text = csv_text(c)
    with Scratch() as d:
        path = os.path.join(d, "X-trades-2024-01.zip")
        write_zip(path, text, "X-trades-2024-01.csv", c["others"], zipfile.ZIP_DEFLATED if c["deflate"] else zipfile.ZIP_STORED)
        before = open(path, "rb").read()
        df = sut(m.load_csv_from_zip, path)
        require(open(path, "rb").read() == before, "the archive is changed")
    exp = sorted(c["rows"], key=lambda r: r[3])            # stable: trades of one stamp stay in the order of the archive
    require(len(df) == len(exp), lambda: f"{len(df)} trades from an archive of {len(exp)} rows")
    cmp_exact("id", df["id"].to_numpy(), np.array([r[0] for r in exp], dtype=np.int64))
    cmp_exact("price", df["price"].to_numpy(), np.array([r[1] * 0.25 for r in exp]))
    cmp_exact("quantity", df["qty"].to_numpy(), np.array([r[2] / 64 for r in exp]))
    cmp_exact("time", df["time"].to_numpy(), np.array([r[3] for r in exp], dtype=np.int64))
    cmp_exact("buyer is maker", df["is_buyer_maker"].to_numpy(), np.array([bool(r[4]) for r in exp]))
    require(df["id"].dtype == np.int64 and df["time"].dtype == np.int64 and df["is_buyer_maker"].dtype == bool and df["price"].dtype == np.float64 and df["qty"].dtype == np.float64,
            lambda: f"types {dict(df.dtypes)}")
    require(list(df.index) == list(range(len(exp))), "the rows are not numbered from zero")


@st.composite
def archive(draw, lo=1, hi=40):
    n = draw(st.integers(lo, hi))
    t = draw(st.sampled_from([1_704_067_200_000, 1_609_459_200_123, 1_738_368_000_000_000]))
    i = draw(st.sampled_from([0, 1, 4_000_000_000, 9_007_199_254_740_993]))
    rows = []
    for _ in range(n):
        t += draw(st.sampled_from([0, 0, 1, 1, 17, 1000, 60_000]))
        i += draw(st.sampled_from([1, 1, 1, 2, 50]))
        rows.append([i, draw(st.integers(1, 200_000)), draw(st.integers(1, 6400)), t, draw(st.booleans())])
    k = draw(st.sampled_from(["sorted", "sorted", "swap", "reverse"]))
    if k == "reverse":
        rows.reverse()
    elif k == "swap" and n > 1:
        a = draw(st.integers(0, n - 2))
        rows[a], rows[a + 1] = rows[a + 1], rows[a]
    layout = draw(st.sampled_from(["um", "cm", "spot", "spot", "old"]))
    return {"rows": rows, "layout": layout, "best": draw(st.booleans()) if draw(st.booleans()) else layout in ("spot", "old"), "header": draw(st.booleans()),
            "flag": draw(st.sampled_from(["camel", "lower", "upper", "num"])), "eol": draw(st.sampled_from(["\n", "\r\n"])), "end": draw(st.booleans()), "digits": draw(st.sampled_from([0, 8])),
            "others": draw(st.integers(0, 2)), "deflate": draw(st.booleans())}


# ---------------------------------------------------------------------------------------------------- months, labels, checksums

def check_months(c):
    m = script()
    a, b = c["a"], c["b"]
    exp = []
    k = a
    while k <= b:
        exp.append((k // 12, k % 12 + 1))
        k += 1
    M = lambda k: m.Month(k // 12, k % 12 + 1)             # noqa: E731
    if b < a:
        expect_raises(ValueError, m.month_range, M(a), M(b))
        return
    got = sut(m.month_range, M(a), M(b))
    require([(x.year, x.month) for x in got] == exp, lambda: f"months {[(x.year, x.month) for x in got][:14]}, expected {exp[:14]}")
    for x, (y, mo) in zip(got, exp):
        require(x.ym() == f"{y}-{mo:02d}" and x.yymm() == f"{y % 100:02d}{mo:02d}", lambda: f"{x.ym()} / {x.yymm()} for month {mo} of {y}")
        require(sut(m.parse_ym, x.ym()) == x, lambda: f"{x.ym()} is read as {m.parse_ym(x.ym())}")
    y, mo = exp[0]
    for text, want in ((f" {y}-{mo:02d} ", exp[0]), (f"{y}/{mo}", exp[0]), (f"{y}.{mo:02d}", exp[0]), (f"{y}{mo:02d}", exp[0]), (str(y), (y, 1))):
        r = sut(m.parse_ym, text)
        require((r.year, r.month) == want, lambda: f"{text!r} is read as {r}")
    for bad in (f"{y}-13", f"{y}-00", f"{y}-1-1", "20", "soon", f"{y}-x", ""):
        expect_raises(ValueError, m.parse_ym, bad)
    name = f"/x/{c['sym']}_{c['label']}_{got[0].yymm()}-{got[-1].yymm()}.h5"
    require(tuple(m.parse_range_from_name(name)) == (got[0].yymm(), got[-1].yymm()), lambda: f"the range of {name} is read as {m.parse_range_from_name(name)}")


MARKETS = {"SPOT": (["spot", "SPOT", " Spot "], "spot", "/data/spot/monthly/trades/"),
           "PERPum": (["um", "PERPum", "perp_um", "USDM", " um "], "um", "/data/futures/um/monthly/trades/"),
           "PERPcm": (["cm", "PERPcm", "perp_cm", "coinm", "CM "], "cm", "/data/futures/cm/monthly/trades/")}


def check_market(c):
    m = script()
    names, path, prefix = MARKETS[c["label"]]
    for nm in names:
        require(sut(m.market_label, nm) == c["label"], lambda: f"market {nm!r} is labelled {m.market_label(nm)!r}")
        require(sut(m.market_path, nm) == path, lambda: f"market {nm!r} is stored under {m.market_path(nm)!r}")
        z, k = sut(m.build_urls, nm, c["sym"], m.Month(c["a"] // 12, c["a"] % 12 + 1))
        exp = f"{prefix}{c['sym']}/{c['sym']}-trades-{c['a'] // 12:04d}-{c['a'] % 12 + 1:02d}.zip"
        require(z.endswith(exp) and z[:8] == "https://" and k == z + ".CHECKSUM", lambda: f"addresses {z}, {k}; expected ...{exp}")
    for bad in ("", "futures", "spot2", "u"):
        expect_raises(ValueError, m.market_label, bad)
        expect_raises(ValueError, m.market_path, bad)


def check_checksum(c):
    m = script()
    data = bytes(c["data"])
    algo = hashlib.sha256 if c["algo"] == "sha256" else hashlib.md5
    other = bytearray(data)
    digest = algo(data).hexdigest()
    if c["damage"] == "flip" and data:
        other[c["at"] % len(data)] ^= 1 << (c["at"] % 8)
    elif c["damage"] == "cut":
        other = other[:-1]
    elif c["damage"] == "extend":
        other += b"\0"
    line = {"plain": "{d}", "name": "{d}  X-trades-2024-01.zip\n", "upper": "{D}  X.zip", "lead": "\n{d} *X.zip\r\n"}[c["form"]].format(d=digest, D=digest.upper())
    with Scratch() as d:
        z, k = os.path.join(d, "X.zip"), os.path.join(d, "X.zip.CHECKSUM")
        with open(z, "wb") as f:
            f.write(bytes(other))
        with open(k, "w") as f:
            f.write(line)
        ok = sut(m.verify_zip_checksum, z, k)
        require(bool(ok) == (bytes(other) == data), lambda: f"checksum of {'unchanged' if bytes(other) == data else 'damaged'} data ({c['damage']}, {c['algo']}, {c['form']}): verified={ok}")
        os.remove(k)
        require(sut(m.verify_zip_checksum, z, k) is True, "an archive without a checksum is refused")


# ---------------------------------------------------------------------------------------------------- the pipeline

def month_archive(mon, spec):
    """archive text, and the trades it holds"""
    lo, hi = month_bounds(mon)
    ms = 10 ** 6
    t = lo // ms + spec["day"] * 86_400_000 + 250
    rows = []
    for k, (gap, p, q, mk) in enumerate(spec["rows"]):
        t += gap
        rows.append([1000 + k, p, q, t, mk])
    text = csv_text({"rows": rows, "layout": spec["layout"], "best": spec["layout"] == "spot", "header": spec["header"], "flag": "lower", "eol": "\n", "end": True, "digits": 8})
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        z.writestr("trades.csv", text)
    return buf.getvalue(), rows


def expected_rows(rows):
    from finmlkit.bar.data_model import TradesData
    r = sorted(rows, key=lambda x: x[3])
    td = TradesData(np.array([x[3] for x in r], dtype=np.int64), np.array([x[1] * 0.25 for x in r]), np.array([x[2] / 64 for x in r]), np.array([x[0] for x in r], dtype=np.int64),
                    is_buyer_maker=np.array([bool(x[4]) for x in r]), preprocess=True, timestamp_unit="ms")
    return trade_rows_of(td.data)


def check_pipeline(c):
    m = script()
    from finmlkit.bar.data_model import TradesData
    SERVER.clear()
    months = [f"{y}-{mo:02d}" for y, mo in ((2023, 12), (2024, 1), (2024, 2))]
    spec = {mon: s for mon, s in zip(months, c["months"])}
    label = m.market_label(c["market"])
    urls, data = {}, {}
    for mon, s in spec.items():
        body, rows = month_archive(mon, {**s, "layout": "spot" if c["market"] == "spot" else c["market"]})
        z, k = m.build_urls(c["market"], "ABCUSDT", m.Month(int(mon[:4]), int(mon[5:])))
        urls[mon] = (z, k)
        data[mon] = expected_rows(rows)
        state = s["state"] if mon not in (months[0], months[c["runs"][0]]) else "ok" if s["state"] in ("missing", "bad") else s["state"]
        spec[mon] = {**s, "state": state}
        if state == "missing":
            continue
        wrong = body[:-3] + bytes([body[-3] ^ 1]) + body[-2:]
        SERVER[z] = {"ok": [body], "retry": [wrong, body], "bad": [wrong], "nosum": [body]}[state]
        if state != "nosum":
            SERVER[k] = [hashlib.sha256(body).hexdigest().encode() + b"  ABCUSDT.zip\n"]
    with Scratch() as d:
        for last in c["runs"]:
            with quiet():
                sut(m.orchestrate_symbol, "ABCUSDT", c["market"], m.Month(2023, 12), m.Month(int(months[last][:4]), int(months[last][5:])), d, 1, True)
            have = [mon for mon in months[:last + 1] if spec[mon]["state"] != "missing"]
            name = f"ABCUSDT_{label}_2312-{have[-1][2:4]}{have[-1][5:]}.h5"
            files = sorted(f for f in os.listdir(os.path.join(d, "h5")))
            require(files == [name], lambda: f"stored as {files}, expected {name}")
            good = [mon for mon in have if spec[mon]["state"] != "bad"]
            path = os.path.join(d, "h5", name)
            import pandas as pd
            with pd.HDFStore(path, "r") as s:
                keys = sorted(re.sub(r".*(\d{4}).(\d{2}).*", r"\1-\2", k) for k in s.keys() if k.startswith("/trades"))
            require(keys == good, lambda: f"months {keys} in the store, archives were good for {good}")
            td = sut(TradesData.load_trades_h5, path, enable_multiprocessing=False)
            exp = [r for mon in good for r in data[mon]]
            got = trade_rows_of(td.data)
            require(got == exp, lambda: f"{len(got)} stored trades, {len(exp)} in the archives; first difference {next(((a, b) for a, b in zip(got, exp) if a != b), None)}")
            with pd.HDFStore(path, "r") as s:
                bars = sorted({re.sub(r".*(\d{4}).(\d{2}).*", r"\1-\2", k) for k in s.keys() if k.startswith("/klines")})
            require(bars == good, lambda: f"one-second bars for {bars}, trades for {good}")
        log = SERVER.get("log", [])
        for mon, (z, k) in urls.items():
            n = log.count(z)
            require(n <= (1 if spec[mon]["state"] in ("ok", "nosum") else 1 + len(c["runs"])), lambda: f"the archive of {mon} was fetched {n} times")


@st.composite
def pipeline(draw):
    def rows():
        return st.lists(st.tuples(st.sampled_from([0, 1, 250, 1000, 2500, 61_000]), st.integers(300, 340), st.integers(1, 640), st.booleans()).map(list), min_size=3, max_size=8).map(
            lambda r: [[g or (7 if i == len(r) - 1 else 0), *x] for i, (g, *x) in enumerate(r[:-1])] + [[3000, *r[-1][1:]]])
    months = [{"rows": draw(rows()), "day": draw(st.integers(0, 26)), "header": draw(st.booleans()), "state": draw(st.sampled_from(["ok", "ok", "retry", "bad", "missing", "nosum"]))} for _ in range(3)]
    return {"months": months, "market": draw(st.sampled_from(["spot", "um", "cm"])), "runs": draw(st.sampled_from([[2], [0, 2], [0, 1], [1, 2], [2, 2]]))}


CAL = {"a": st.integers(2000 * 12, 2098 * 12), "b": st.integers(-3, 40), "sym": st.sampled_from(["BTCUSDT", "ETHUSD_PERP", "1000SHIBUSDT"]), "label": st.sampled_from(sorted(MARKETS))}


def cal():
    return st.fixed_dictionaries(CAL).map(lambda c: {**c, "b": c["a"] + c["b"]})


FACETS = [
    Facet("archive", archive(), check_archive, quick=900, thorough=15000, jit=False, nontrivial=lambda c: len(c["rows"]) > 2,
          classify=lambda c: [c["layout"], "header" if c["header"] else "no header", "flags " + c["flag"], "in order" if c["rows"] == sorted(c["rows"], key=lambda r: r[3]) else "out of order"]),
    Facet("months", cal(), check_months, quick=500, thorough=8000, jit=False, nontrivial=lambda c: c["a"] // 12 < c["b"] // 12),
    Facet("markets", cal(), check_market, quick=100, thorough=1000, jit=False),
    Facet("checksums", st.fixed_dictionaries({"data": st.lists(st.integers(0, 255), max_size=40), "algo": st.sampled_from(["sha256", "md5"]), "damage": st.sampled_from(["none", "flip", "cut", "extend"]),
                                              "at": st.integers(0, 400), "form": st.sampled_from(["plain", "name", "upper", "lead"])}), check_checksum, quick=400, thorough=5000, jit=False),
    Facet("pipeline", pipeline(), check_pipeline, quick=80, thorough=400, jit=False, classify=lambda c: [c["market"]] + sorted({x["state"] for x in c["months"]})),
]
