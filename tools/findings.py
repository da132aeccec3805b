#!/usr/bin/env python3
"""Source of known_findings.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("P01", "0c22f75", "buyer/maker flags were not permuted or de-duplicated with the trades, so sides were attributed to the wrong trades when rows were stored out of id order or with duplicated ids"),
 ("P02", "7d31a2e", "narrow integer timestamp columns wrapped around when converted to nanoseconds"),
 ("P11", "4327873", "the first trade of a bar was compared with the wrong predecessor (spread and side switches)"),
 ("P11", "b40478a", "mean spread of a bar without signed trades raised a division error when compiled and was NaN interpreted"),
 ("P11", "95b1957", "running extremes of cumulative order flow were clipped at a +-1e9 sentinel"),
 ("P14", "eb31c2e", "converting footprints whose bars all have the same number of levels produced a 2-D array instead of per-bar arrays"),
 ("P14", "5edb72e", "indexing a footprint with an integer or a half-open time slice failed"),
 ("P09", "f7298d1", "the CUSUM bar kit overwrote the caller's sigma array and rejected a constant sigma"),
 ("P15", "7a20efa", "tick sizes whose grid needs more than one significant digit (e.g. 0.25) were inferred wrongly"),
 ("P05", "b1a66d6", "appending to a stored month left the month's metadata and integrity info describing only the last batch"),
 ("P04", "5cacc85", "loading reordered trades with equal timestamps"),
 ("P16", "a781853", "time bars stored under an explicit YYYY-MM key were written to a group no reader looks at"),
 ("P05", "f1d33b5", "first/last timestamps of a month were rounded when no integrity flag was known"),
 ("P16", "c4f2f56", "reading a range without bars with a timeframe raised instead of returning an empty frame"),
 ("P17", "7eeeff0", "touch, return and ratio of events ended by the end of the data or the minimum-close delay belonged to different observations"),
 ("P17", "9c45066", "a barrier multiplier of +inf for the lower (or -inf for the upper) barrier did not disable it"),
 ("P17", "4f8dc08", "vertical barrier and event look-up used float64 nanoseconds and could miss or misplace observations"),
 ("P20", "2ac8868", "time decay with last weight -1 divided by zero"),
 ("P27", "0c8df1e", "the rolling break test reported NaN at the first observation with enough history and used another window than the developing one"),
 ("P22", "2b7cc2c", "the developing volume profile wrote results at the absolute position into an array of the sub-range (out of bounds)"),
 ("P23", "1bbe80c", "moving average and ATR of integer columns were truncated to integers (also rate of change, P24)"),
 ("P23", "4d0d788", "one missing value made the whole rest of the exponential moving average NaN (the table backend skips it)"),
 ("P23", "4115264", "missing returns kept their weight in the time-decayed volatility, biasing it downwards"),
 ("P23", "8a66bc9", "the exponential standard deviation of a single observation after missing values was a rounding residue instead of NaN"),
 ("P23", "41f88f7", "a missing bar made the ATR NaN at some positions and not at others"),
 ("P24", "6f8f16c", "RSI of a window without losses was NaN compiled and 100 in the table backend; the table backend raised on short series"),
 ("P24", "ddfbc72", "StochK handed high, low and close to the kernel in the wrong order (it reported (high-min low)/(max close-min low))"),
 ("P25", "a4ee9cc", "the first value of the log VWAP distance was a simple distance"),
 ("P30", "b842a95", "PctChange in the table backend had another name, filled missing values and divided by non-positive bases"),
 ("P30", "cfaa080", "CUSUMTest ages wrapped around at 256 when max_age exceeds 255"),
 ("P24", "417e9b2", "directional run lengths wrapped around at 128, a missing return counted as a run of one, a single observation read out of bounds"),
 ("P28", "2f3863d", "the daily gap at midnight was computed with the last-but-one close of the same day (look-ahead)"),
 ("P23", "ef7cfab", "bi-power variation was scaled by 1/mu1 instead of 1/mu1^2"),
 ("P24", "5a9de1f", "the Hurst exponent raised for windows up to 8 and was always NaN for 9"),
 ("P30", "0be6d26", "indexes with second, milli- or microsecond resolution were read as nanoseconds"),
 ("P21", "8c4bcd7", "lagged returns located the lagged observation in float64 nanoseconds"),
 ("P30", "fe3c06c", "BarRate, BarDuration and BarDurationEWMA returned series with another name than declared"),
 ("P33", "ee32dc1", "ReturnT, EWMST, PctChange and BarRate lost their parameter when saved and loaded (ReturnT silently fell back to its default)"),
 ("P33", "2de64cc", "ema(adjust=False) was reloaded as adjust=True"),
 ("P33", "119f6f0", "unary operations were reloaded under another output name"),
 ("P31", "8f2fb78", "a later step of a composed transform read a raw column of the table instead of the previous step's output"),
 ("P29", "d551ed4", "evaluating a composed transform renamed a column cached in the caller's table"),
 ("P32", "0ea4052", "custom names of a multi-output feature were ignored by FeatureKit"),
 ("P32", "37ec599", "the topological order of features depended on string hashing"),
 ("P32", "42cf296", "the topological order ignored dependencies on renamed and multi-output features"),
 ("P23", "4f6e6c7", "the time-decayed volatility of a single observation was a rounding residue of any size"),
 ("P23", "3bc1d96", "one missing value made all later Bollinger positions NaN, large offsets cancelled catastrophically"),
 ("P32", "a0bd36f", "a kit returned the cached values of another transform with the same output column (e.g. log and simple return, z-scores with different ddof) for a renamed or derived feature"),
 ("P28", "c610565", "VarianceRatio14 gave NaN for bars of a table shorter than window + 4 that have a value as soon as more bars follow"),
 ("P34", "f2e7862", "the structural break test of fewer than three observations read out of bounds (one) or divided by zero (two)"),
 ("P34", "979dcf3", "the burst ratio of a window with a missing value was a number compiled and NaN interpreted"),
 ("P34", "8028d26", "the rate of change from a zero price raised ZeroDivisionError compiled and was infinite interpreted"),
 ("P34", "9048055", "the Parkinson range of a bar with a zero low raised ZeroDivisionError compiled and was infinite interpreted"),
 ("P36", "a292239", "archives that start with a header line (all futures archives) could not be imported"),
 ("P36", "7aabec2", "imported trades of one time stamp were reordered (unstable sort)"),
 ("P07", "28caf22", "the time-bar clock was built in float64 nanoseconds (present-day stamps need 61 bits): stamps of sub-second intervals lay off the regular clock and a trade near a boundary could fall into the neighbouring bar"),
 ("P01", "3d00e5a", "fills at different prices less than 1e-8 apart (adjacent ticks of very low-priced assets) were merged into one trade"),
 ("P01", "04d2ee0", "amounts of merged fills were accumulated in single precision, so orders of many fills lost volume"),
 ("P13", "4c4a5c0", "level volumes were accumulated in single precision and imbalance counts of bars spanning more than 65535 levels wrapped around"),
 ("P24", "623eea5", "candle shape ratios added an absolute epsilon to the range, so they were wrong for very low-priced assets and depended on the price unit"),
 ("P22", "9b8bf90", "window volume profiles were accumulated in single precision, so the point of control of long windows could be wrong"),
 ("P26", "181b9b8", "the daily gap used a later close of the day when the midnight close is missing"),
 ("P30", "2411efc", "the daily gap of a table whose index has a time zone was NaN everywhere"),
 ("P28", "181b9b8", "the daily gap at midnight depended on later bars when the midnight close is missing"),
 ("P33", "c9d52a8", "NumPy scalar parameters (a window of np.int64, a threshold of np.float32) were saved as strings, so the reloaded transform failed or computed something else"),
 ("P16", "a9c542b", "a read whose end lies 1 to 999 ns after midnight was taken for a whole-day read and returned up to a day of later bars"),
]
OPEN = [
 ("P13", "P13-int16-run", "the longest imbalance run of a bar is reported as int16: runs over 32767 levels wrap around when compiled and raise OverflowError when interpreted; not repaired because existing tests pin the int16 result type"),
 ("P19", "P19-int16-concurrency", "label concurrency is counted in int16: more than 32767 labels covering one observation wrap around to negative concurrency (average uniqueness and return attribution are wrong); not repaired because existing tests pin the int16 result type"),
 ("P24", "P24-variance-ratio-scale", "VarianceRatio14 (window variance of 1-bar returns over that of 4-bar returns, documented as var(1)/var(4)) returns four times the documented ratio; not repaired because existing tests pin a mean between 0.5 and 3 on a random walk"),
 ("P25", "P25-corr-special-case", "PriceVolumeCorrelation hard-codes +1/-1 on strictly monotone windows (bars 4-9 in the Numba kernel; window 4 with ten or more monotone bars in the pandas backend) where the correlation of returns and volumes is different; not repaired because existing tests pin these values"),
 ("P28", "P28-corr-special-case", "PriceVolumeCorrelation with window 4 and the pandas backend returns hard-coded +1/-1 when the whole table (ten or more bars) is monotone, so its values at earlier bars depend on later ones; not repaired because existing tests pin the special case"),
]
def main():
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for p, h, w in FIXED:
            f.write(json.dumps({"property": p, "id": f"{p}-{h}", "status": "fixed", "entry": f"fixed: property={p} {h} {w}", "what": w}) + "\n")
        for p, i, w in OPEN:
            f.write(json.dumps({"property": p, "id": i, "status": "open", "entry": f"open: property={p} {i}", "what": w}) + "\n")
main()
