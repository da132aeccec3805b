#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  tools/specs.py  rewrites both (deterministic)."""
import json, sys
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, L, F = "finmlkit/bar/", "finmlkit/label/", "finmlkit/feature/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, na=na))


prop("P01", "Trade preprocessing conserves, orders, de-duplicates and merges trades",
     "Preprocessing raw trades yields time-ordered trades (ties in trade-id order) in which each trade id contributes exactly once (its first stored record) and only consecutive trades with the same timestamp, price and side are merged, with their amounts added. "
     "Every output trade keeps its own side (buyer-maker = sell), or, without side data, the tick-rule side of the merged price sequence; total volume is conserved. The caller's arrays are never modified.",
     ["inputs"], "all raw trade tables: any storage order, any clock disorder relative to ids, any duplicated ids, any mix of equal stamps/prices/sides",
     "tests use a handful of already ordered trades without side flags; the permutation/duplicate/side space is unbounded",
     [B + "data_model.py", B + "utils.py"], [("TradesData._sort_trades/_merge_trades", B + "data_model.py"), ("merge_split_trades, comp_trade_side_vector", B + "utils.py")])

prop("P02", "Timestamp units and processing resolution denote the same instants",
     "The same trades expressed in s, ms, us or ns give the same nanosecond timestamps, sides and amounts, whether the unit is stated or inferred (instants after 2001-09-09), and the datetime index always equals the timestamp column. "
     "A coarser processing resolution floors every timestamp to it after merging and changes nothing else; a finer or equal one changes nothing; invalid units and resolutions are rejected.",
     ["inputs", "configurations"], "all trade tables x 4 units x stated/inferred x 5 resolutions, including instants at the inference thresholds",
     "tests try two unit/resolution pairs on one date",
     [B + "data_model.py"], [("_convert_timestamps_to_ns, _apply_timestamp_resolution, _infer_timestamp_unit", B + "data_model.py")])

prop("P03", "The data-integrity report counts exactly the missing and duplicated trades",
     "The missing percentage equals 100 x (ids absent between the smallest and largest id) / (number of distinct ids), and the discontinuity list holds exactly the id gaps whose surrounding trades are more than one minute apart, with their ids, sizes and times. "
     "The data-ok flag is false exactly when ids are duplicated or such a discontinuity exists.",
     ["inputs"], "all id/timestamp sequences, including gaps at the one-minute boundary, duplicates next to gaps and disordered storage",
     "tests contain one gap and no duplicates; the boundary cases are combinatorial",
     [B + "data_model.py"], [("_validate_data, _sort_trades", B + "data_model.py")])

prop("P04", "The HDF5 trade store returns exactly what was saved, for any save/load history",
     "After any sequence of monthly saves (create, overwrite, append, explicit key), loading by month, by time range or both returns exactly the stored trades of that slice (both ends inclusive), in time order with stored order kept for equal stamps. "
     "Parallel and sequential loading agree, and a month or range without data is rejected.",
     ["histories", "inputs"], "all interleavings of save/overwrite/append/load over several months, with ranges at trade stamps, month ends and between trades",
     "tests save one or two months once; append and overwrite histories are not exercised",
     [B + "data_model.py", B + "io.py"], [("save_h5, load_trades_h5, _keys_for_timerange", B + "data_model.py")])

prop("P05", "Store metadata and inspection describe the stored trades",
     "For every stored month the reported record count, first and last timestamps and integrity flag describe all trades stored for that month after any history of saves and appends, and the missing percentage of a month saved in one go is that of its trades. "
     "Integrity summaries and the gap listing name exactly the saved discontinuities of the requested months.",
     ["histories"], "all save/append/overwrite histories over several months with and without gaps",
     "tests inspect a store written once with no gaps",
     [B + "data_model.py", B + "io.py"], [("save_h5 metadata", B + "data_model.py"), ("H5Inspector", B + "io.py")])

prop("P06", "A view range restricts trade access to exactly its closed time interval",
     "Setting a view range makes the visible trades exactly those with start <= time <= end, without altering the stored trades; it can be moved any number of times, and a range whose start is not before its end is rejected and leaves the previous view unchanged. "
     "Bars built afterwards see only the visible trades.",
     ["histories", "inputs"], "all trade tables x sequences of view changes with boundaries on, next to and outside trade stamps",
     "tests set one view once", [B + "data_model.py", B + "base.py"], [("set_view_range, data", B + "data_model.py")])

prop("P07", "Time bars partition the trades on an exact regular clock",
     "Time bars lie on a regular clock of the requested interval aligned to multiples of it, and each trade after the first clock stamp belongs to exactly one bar: the one whose clock stamp is the first at or after the trade. "
     "The first stamp is not after the first trade, the last is not before the last trade, and the reported close index of a bar is the last trade at or before its stamp (repeated for empty bars).",
     ["inputs", "configurations"], "all ordered trade sequences x intervals from milliseconds to days, including trades exactly on, one tick before and one after a boundary, and long empty stretches",
     "tests use three or four hand-made sequences with small timestamps",
     [B + "logic.py", B + "kit.py", B + "base.py"], [("_time_bar_indexer", B + "logic.py"), ("TimeBarKit", B + "kit.py")])

prop("P08", "Tick, volume and dollar bars close exactly at their threshold",
     "A tick bar closes at every n-th trade counted from the first one. A volume (dollar) bar closes at the first trade at which the accumulated volume (traded value) reaches the threshold, where the volume accumulation then restarts at zero and the dollar accumulation keeps its excess over the threshold. "
     "Consecutive bars are contiguous, no trade is in two bars and trades after the last completed bar belong to no bar.",
     ["inputs", "configurations"], "all trade sequences x thresholds below, at and above single-trade sizes",
     "tests cover no threshold bar indexers directly",
     [B + "logic.py", B + "kit.py"], [("_tick_bar_indexer, _volume_bar_indexer, _dollar_bar_indexer", B + "logic.py")])

prop("P09", "CUSUM bars open exactly at symmetric log-return CUSUM events",
     "A CUSUM bar closes at the last trade of a timestamp at which the accumulated positive or negative log return since that side last triggered has reached the current threshold max(floor, multiplier x volatility); only the triggered side restarts. Missing volatility is carried forward and bars start at the first available value. "
     "The caller's volatility input is not modified.",
     ["inputs", "configurations"], "all trade sequences x volatility series (including missing values) x multipliers x floors",
     "no test drives the CUSUM bar indexer",
     [B + "logic.py", B + "kit.py"], [("_cusum_bar_indexer", B + "logic.py"), ("CUSUMBarKit", B + "kit.py")])

prop("P10", "OHLCV of every bar summarises exactly its own trades",
     "For every bar, open, high, low, close, volume, VWAP, trade count and median trade size are those of exactly the trades between the previous bar's close (exclusive) and its own close (inclusive); an empty bar carries the previous price, zero volume and zero trades. "
     "Low <= open, close, VWAP <= high, and volumes and trade counts of all bars add up to those of the covered trades.",
     ["inputs"], "all trade sequences x all bar boundary sequences (including empty and single-trade bars)",
     "tests check a few bars of a fixed sequence",
     [B + "base.py"], [("comp_bar_ohlcv", B + "base.py"), ("BarBuilderBase.build_ohlcv", B + "base.py")])

prop("P11", "Order-flow features summarise exactly the signed trades of each bar",
     "For every bar, buy and sell tick counts, volumes and traded values, the running minimum and maximum of signed ticks, volume and value, and the mean and maximum side-switch spread are functions of exactly that bar's trades and the single trade preceding it; bars without signed trades have zero counts and an undefined (NaN) mean spread. "
     "Buy plus sell ticks, volume and value equal the totals of the bar's signed trades.",
     ["inputs"], "all trade sequences with sides x all bar boundary sequences",
     "tests check single fixed sequences",
     [B + "base.py"], [("comp_bar_directional_features", B + "base.py")])

prop("P12", "Trade-size features summarise exactly the trades of each bar",
     "For every bar, the mean relative size, the 95th percentile of relative size, the share of volume in block trades and the size concentration (Gini) are computed from exactly that bar's trades relative to the supplied per-bar reference size and block threshold multiplier. "
     "Shares lie in [0, 1], and empty bars yield the neutral values.",
     ["inputs", "configurations"], "all trade sequences x bar boundaries x reference sizes x multipliers",
     "tests check one fixed sequence", [B + "base.py"], [("comp_bar_trade_size_features", B + "base.py")])

prop("P13", "Footprints allocate every trade of a bar to its price level and side",
     "For every bar the footprint lists every price level between its low and high in ascending order, and the buy/sell volume and tick count of a level are the sums over exactly the bar's trades at that price and side. "
     "Totals over levels equal the bar's totals, and imbalance flags, imbalance sums, longest imbalance run and the controlling price level follow from the listed volumes by their documented rules.",
     ["inputs", "configurations"], "all signed trade sequences on a tick grid x bar boundaries x imbalance factors",
     "tests check two or three hand-made bars", [B + "base.py"], [("comp_bar_footprints, comp_footprint_features", B + "base.py")])

prop("P14", "The footprint container preserves and slices footprints faithfully",
     "Converting footprints between compiled and array form, slicing them by position or by time, and exporting them as a table never changes, drops or reorders any bar's levels or values. "
     "A time slice contains exactly the bars whose timestamps lie in the closed interval.",
     ["inputs", "histories"], "all footprints (ragged and equal level counts, one bar, many bars) x slice bounds x conversion sequences",
     "tests slice one ragged footprint once", [B + "data_model.py", B + "utils.py"], [("FootprintData", B + "data_model.py"), ("footprint_to_dataframe", B + "utils.py")])

prop("P15", "Tick size and trade side inference recover the price grid and tick rule",
     "For prices on a decimal grid that realise the grid's greatest common step, the inferred tick size is that step and every price is a whole number of ticks apart; constant prices give zero. "
     "Inferred trade sides follow the tick rule: the sign of the last price change, zero before any change.",
     ["inputs"], "all price sequences on decimal grids 1e-8..1e3 with any multiple structure",
     "tests try three grids", [B + "utils.py"], [("comp_price_tick_size, comp_trade_side_vector", B + "utils.py")])

prop("P16", "Stored time bars and their resampling agree with bars built from the trades",
     "Bars added to a store month by month and read back by time range are exactly the one-second bars built from the stored trades, inside the closed range. "
     "Resampling them to a coarser timeframe gives, per interval, the first open, highest high, lowest low, last close, summed volume and trades and volume-weighted VWAP of the bars read.",
     ["inputs", "histories", "configurations"], "all stored trade months x timeframes x read ranges",
     "tests read one month with one timeframe", [B + "io.py"], [("AddTimeBarH5, TimeBarReader", B + "io.py")])

prop("P17", "Triple-barrier labels report the first barrier touched",
     "For every event the label, touch position, realised log return and vertical-barrier ratio are those of the first barrier the price path touches after the event, with barrier widths proportional to the event's target return, and the vertical barrier is the last observation within the holding period; an event without any observation in its horizon is unresolved (label 0, NaN return). "
     "Meta-labels are 1 exactly when the return in the direction of the given side is at least the minimum return.",
     ["inputs", "configurations"], "all price paths x event sets x targets x barrier multipliers x horizons x minimum-close delays, including infinite and touching-exactly barriers",
     "tests follow a few monotone paths", [L + "tbm.py"], [("triple_barrier", L + "tbm.py")])

prop("P18", "The labelling kit aligns features, trades and weights by event time",
     "Label tables produced from trades and features carry exactly one row per valid feature row in time order, each label, return and touch time being that of the triple-barrier method applied to the trades at the row's time, and rows with missing or too small targets or without an available horizon are dropped, never misaligned. "
     "Sample weights computed from the table use only the labels of the table and combine as documented.",
     ["inputs", "histories"], "all trade/feature tables with irregular stamps, missing targets and events near the end of data",
     "tests use one synthetic table", [L + "kit.py"], [("TBMLabel, SampleWeights", L + "kit.py")])

prop("P19", "Uniqueness and return-attribution weights follow label concurrency",
     "Concurrency at an observation equals the number of labels whose [event, touch] span covers it, the average uniqueness of a label is the mean of 1/concurrency over its span (1 exactly when it overlaps nothing), and return attribution is the absolute concurrency-weighted sum of log returns over the span, normalised to sum to the number of labels. "
     "Weights do not depend on labels that do not overlap.",
     ["inputs"], "all observation grids x all multisets of label spans",
     "tests check four or five spans", [L + "weights.py"], [("average_uniqueness, label_concurrency, return_attribution", L + "weights.py")])

prop("P20", "Time-decay and class-balance weights have the stated shape",
     "Time-decay weights are non-decreasing in label order, reach 1 at the newest label, start at the requested oldest weight (or are zero for the requested oldest share), and are affine in cumulative uniqueness in between. "
     "Class-balance weights give every class present the same total weight, and leave relative weights within a class unchanged.",
     ["inputs", "configurations"], "all uniqueness sequences x last weights in (-1, 1]; all label sequences x base weights",
     "tests check three settings", [L + "weights.py"], [("time_decay, class_balance_weights", L + "weights.py")])

prop("P21", "CUSUM event filter samples exactly the symmetric CUSUM crossings",
     "Sampled events are exactly the positions at which the upward or downward cumulative log return strictly exceeds its (scalar or per-observation) threshold, where each accumulation is floored at zero and only the triggered side restarts. "
     "Events are strictly increasing, depend only on past prices, and wrong lengths are rejected.",
     ["inputs", "configurations"], "all positive price series x scalar/array thresholds",
     "tests check two series", ["finmlkit/sampling/filters.py"], [("cusum_filter", "finmlkit/sampling/filters.py")])

prop("P22", "Volume-profile features describe the profile of exactly their window",
     "The rolling volume profile features at a bar are computed from exactly the footprint levels of the bars within the look-back duration ending at that bar: the point of control is a price of maximum volume, the value area is a contiguous range around it holding at least the requested share of volume, and its bounds straddle the point of control. "
     "Results do not depend on bars outside the window.",
     ["inputs", "configurations"], "all footprint sequences x look-back durations x value-area shares x bucket counts",
     "tests check one profile", [F + "core/volume.py"], [("volume_profile_rolling and helpers", F + "core/volume.py")])

prop("P23", "Moving averages and volatility estimators equal their definitions",
     "Simple and exponential averages, exponentially weighted and rolling standard deviations, realised, bipower, Parkinson and ATR volatility, and Bollinger positions equal their textbook definitions on each window of the input. "
     "Entries with insufficient history are NaN, and missing values are treated as documented.",
     ["inputs", "configurations"], "all price/return series (with missing values, constants, zeros and large offsets) x windows",
     "tests compare a few series with pandas", [F + "core/ma.py", F + "core/volatility.py"], [("sma, ewma, ewms, realized_vol, ...", F + "core/volatility.py")])

prop("P24", "Momentum, trend and range indicators equal their definitions and bounds",
     "Rate of change, RSI, stochastic, ADX, z-score, variance ratio and range indicators equal their definitions on each window of the input and stay within their stated bounds. "
     "Scaling all prices by a positive constant does not change scale-free indicators.",
     ["inputs", "configurations"], "all price series x windows, including constant and monotone stretches",
     "tests check one or two series each", [F + "core/momentum.py", F + "core/trend.py", F + "core/reversion.py"], [("roc, rsi_wilder, stoch_k, comp_adx, ...", F + "core/momentum.py")])

prop("P25", "Volume, flow and correlation indicators equal their definitions",
     "VWAP distance, flow acceleration, VPIN and rolling price-volume correlation equal their definitions on each window of the input and stay within their stated bounds. "
     "No particular input values are treated specially.",
     ["inputs", "configurations"], "all price/volume series x windows", "tests check one or two series each, some of them with values hard-coded in the implementation",
     [F + "core/volume.py", F + "core/correlation.py"], [("vpin, vwap_distance, ...", F + "core/volume.py")])

prop("P26", "Calendar and session features follow the wall-clock of the bar stamp",
     "Time-cue, session and calendar features of a bar depend only on the UTC date and time of that bar's stamp and equal its hour, weekday and session membership at every instant, including session and day boundaries. "
     "Cyclic encodings stay on the unit circle.",
     ["inputs"], "all instants of the calendar (leap days, year ends, day and session boundaries) in any index order",
     "tests check a few stamps", [F + "core/time.py", F + "transforms.py"], [("time_cues", F + "core/time.py")])

prop("P27", "Structural-break statistics equal the Chu-Stinchcombe-White maximum",
     "At every observation with enough history the break statistic is the maximum over reference points (the second observation of the window up to two before the current one) of the standardised departure of the log price, floored at zero, and the critical value belongs to a maximising reference point; the downward statistic mirrors the upward one. "
     "Statistics depend only on observations inside their window.",
     ["inputs", "configurations"], "all positive price series x windows x warm-ups",
     "tests check shape and one series", [F + "core/structural_break/cusum.py"], [("cusum_test_rolling, cusum_test_developing", F + "core/structural_break/cusum.py")])

prop("P28", "Features never look ahead",
     "The value of any feature at a bar is unchanged when later bars are altered, removed or appended. "
     "This holds for every built-in transform, any composition of them and every rolling or exponential parameter.",
     ["inputs", "programs"], "all bar tables x all built-in transforms and random compositions x every truncation point",
     "tests never truncate or perturb the future", [F + "transforms.py", F + "core/"], [("all transforms", F + "transforms.py")])

prop("P29", "Computation never modifies its inputs and is repeatable",
     "Building bars, features, labels or weights leaves every table and array passed in bitwise unchanged, and repeating the computation on the same inputs gives identical results. "
     "This holds for every public entry point and composition.",
     ["inputs", "histories", "programs"], "all entry points x all inputs x repeated and interleaved calls",
     "tests do not compare inputs before and after", ["finmlkit/"], [("all entry points", "finmlkit/")])

prop("P30", "Transforms keep the index, the declared names and agree between backends",
     "A transform applied to a bar table returns series on exactly the table's index with exactly the declared output names, rejects a table lacking a required column (and, where it needs time, one without a datetime index), and gives the same values with the compiled and the table backend. "
     "Combining several outputs never mixes them up.",
     ["inputs", "configurations"], "all bar tables x all built-in transforms x parameters x both backends",
     "tests compare backends for a few transforms", [F + "base.py", F + "transforms.py"], [("BaseTransform, SISOTransform, ...", F + "base.py")])

prop("P31", "Feature arithmetic and composition equal element-wise evaluation",
     "Any expression built from features with arithmetic, constants, min/max/abs/clip/log/lag and rolling operators evaluates to the same values as applying the operators to the evaluated operands element by element, and a composed pipeline equals applying its stages in order. "
     "Results keep the index and do not depend on evaluation order.",
     ["programs", "inputs"], "all expression trees up to a depth x all bar tables with missing values",
     "tests evaluate single operators", [F + "base.py", F + "kit.py"], [("Feature operators, BinaryOpTransform, Compose", F + "kit.py")])

prop("P32", "Feature kits return each feature's own value whatever the order or caching",
     "Building a feature kit returns for every feature the values it has when computed alone, under its name and on the table's index, for any order of features, shared sub-expressions and either build order. "
     "The input table is unchanged and repeated builds agree.",
     ["programs", "histories"], "all lists of features with shared sub-expressions x build orders x table contents",
     "tests build fixed lists", [F + "kit.py"], [("FeatureKit.build, topological order, cache", F + "kit.py")])

prop("P33", "Saved feature definitions reload to the same computation",
     "Saving a feature or feature kit and loading it again yields features with the same names that compute the same values on every table. "
     "This holds for every built-in transform, parameter choice, operator expression and composition.",
     ["programs", "configurations"], "all built-in transforms x parameters x random expression trees and compositions",
     "tests round-trip a few quick-start features", [F + "kit.py", F + "base.py", F + "utils.py"], [("to_config/from_config", F + "kit.py"), ("_serialize_value, transform_from_config", F + "utils.py")])

prop("P34", "Compiled and interpreted execution agree",
     "Every numeric kernel gives the same result when compiled as when interpreted, on the same inputs, up to floating-point rounding. "
     "In particular no result depends on memory outside the input arrays or on thread scheduling.",
     ["inputs", "schedules"], "all kernels x all inputs, with parallel kernels at different thread counts",
     "tests run each mode separately on fixed inputs and never compare them", ["finmlkit/"], [("all @njit kernels", "finmlkit/")])

prop("P35", "Bars, events and labels are stable when more data arrives",
     "Appending later trades leaves every already completed bar, its features, sampled events and resolved labels unchanged. "
     "Only the last, still open bar or unresolved label may change.",
     ["inputs", "histories"], "all trade sequences x truncation points x bar kits",
     "tests never extend a sequence", [B + "logic.py", L + "tbm.py"], [("indexers, triple_barrier", B + "logic.py")])

prop("P36", "Exchange CSV archives import to exactly their trades",
     "Importing an exchange trade archive yields exactly its rows in time order with their ids, prices, quantities and sides, with or without a header line. "
     "An archive that does not match its published checksum is not imported. Month ranges and market labels are enumerated completely and in order.",
     ["inputs", "configurations"], "all archives (spot and futures layouts, header or not) and month ranges",
     "no test imports an archive", ["scripts/binance2h5.py"], [("load_csv_from_zip, month_range", "scripts/binance2h5.py")])

prop("P37", "Trade-array helpers sort, check and filter exactly",
     "Sorting raw trade arrays returns every trade exactly once in time order with its own price, amount and side, with or without sides, and leaves the given arrays alone. "
     "The order check is true exactly if no timestamp is smaller than the one before it, to the nanosecond. The middle-of-three filter returns the middle number in every order of its arguments.",
     ["inputs"], "all trade arrays (any disorder, repeated stamps, stamps beyond 2**53), all triples of numbers including infinities",
     "no test calls these helpers on more than a few hand-written values",
     [B + "utils.py"], [("fast_sort_trades, check_timestamps_order, median3", B + "utils.py")])


def main():
    have = {f[1:3] for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("p") and f.endswith(".py")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            **({"observe_at": p["observe"]} if p["observe"] else {})}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"][1:] in have and not p["na"]:
            import importlib.util  # noqa: F401
            checks.append({
                "property": p["id"], "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": TECH.get(p["id"], "property-based testing (Hypothesis): generated inputs against an independent reference model, shrunk to a replay file"),
                "level": "exploration", "level_note": NOTE.get(p["id"], "generated-input search; interpreted and compiled modes; bounds and distribution in the evidence file")})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "not built yet"})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py selftest", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


sys.path.insert(0, os.path.join(HERE, "tools"))
from methods import M  # noqa: E402
TECH = {k: "property-based testing (Hypothesis): " + v[0] for k, v in M.items()}
NOTE = {}

if __name__ == "__main__":
    main()
