"""Per property: (technique field of MANIFEST.json, design paragraph of DESIGN.md)."""
M = {
"P01": ("generated raw tables vs. dict-based reference preprocessing",
 "Generated: raw trade tables as histories of an exchange feed: id gaps, equal stamps, runs of equal price and side that must merge, local clock disorder against ids, re-sent ids (identical or conflicting), any storage permutation, four id types, with and without maker flags. "
 "Oracle: a plain-Python reference (sort by id, keep the first record, stable sort by time, merge runs, tick rule when sides are missing) compared column by column, plus conservation of volume and bitwise-unchanged caller arrays. "
 "`merge_kernel` drives the merge and the tick rule directly. Tests only feed ordered data without maker flags, so permutation, duplicates and side attribution are unreachable for them (defect 0c22f75)."),
"P02": ("metamorphic relation between units, plus reference flooring",
 "Generated: instants in seconds up to nanoseconds from 2001 to 2262, including values within one unit of the inference thresholds, in several integer widths. Relation: the same instants in every unit they are exact in, stated or inferred, give the same data; resolution floors (reference integer division) after merging; finer or equal ones change nothing. `rejects` covers unknown units and resolutions."),
"P03": ("generated id histories vs. set arithmetic",
 "Generated: id sequences with gaps of controlled size and duration (just below, at and above one minute), duplicated ids, unordered storage. Oracle: Python sets of ids for the missing percentage, a scan of consecutive kept ids for discontinuities (ids, sizes, times), and the data-ok equivalence."),
"P04": ("stateful: random save/load histories vs. an in-memory model store",
 "Generated: histories of up to ten saves (create, overwrite, append, explicit and automatic keys, saving while a view range is set, re-saving what was loaded) and loads (by month, range, both, string or Timestamp bounds on or next to trades and month edges) against a list-of-rows model; `parallel` forces the multiprocessing loader. All files live in a scratch folder the check creates and removes."),
"P05": ("stateful: random save histories vs. model metadata",
 "Same store model as P04; after every history the inspector's counts, first/last stamps, integrity flag, missing percentages, summaries and gap listings are compared with what the saved batches imply. Empty and discontinuity-only months are generated. Assumptions state what cannot be known across batches."),
"P06": ("stateful: sequences of view ranges vs. list filter",
 "Generated: trade stamps with ties and sequences of view ranges (bounds on trades, between them, outside, inverted, equal; as strings, Timestamps). Oracle: list comprehension with both ends inclusive; after each step the full data must be unchanged, rejected ranges must leave the previous view, and a bar kit built afterwards must see exactly the visible trades."),
"P07": ("generated stamps around clock boundaries vs. an integer clock",
 "Generated: trade stamps on, 1 ns beside and far from boundaries of the interval, intervals from 1 us to hours, present-day and small epochs. Oracle: integer arithmetic: clock = ceil to multiples, close index = bisection. The oracle is exact in nanoseconds."),
"P08": ("generated trades vs. exact rational accumulation",
 "Amounts, prices and thresholds are dyadic so that threshold comparisons are exact; thresholds are drawn to be hit exactly, just missed or exceeded several times by one trade. Oracle: integer loops over the kits' documented rules for tick, volume and dollar bars."),
"P09": ("generated price paths vs. reference CUSUM with margin filter",
 "Generated: prices, sigma series (constant, missing leading/inner values), floors and multipliers. Oracle: scalar loop; decisions within 1e-9 of a threshold are discarded (counted as skipped) since rounding decides them. Same-stamp trades move the close to the last trade of the stamp."),
"P10": ("generated bars vs. loops over the bar's trades",
 "Generated: any non-decreasing close indices (empty, single-trade and large bars; leading trades outside) and, in `kits`, the bars each kit makes. Oracle: `statistics`-style loops over exactly the bar's slice; the bulk facet has bars of thousands of trades so that block-wise or parallel shortcuts show."),
"P11": ("generated bars vs. loops over the bar's signed trades",
 "As P10 with sides -1/0/1 and the single preceding trade known to the oracle; huge cumulative sums (defect 95b1957), unsigned bars (b40478a), and bars that start with a side switch (4327873)."),
"P12": ("generated bars vs. sorted-size reference",
 "As P10 with per-bar reference sizes and multipliers; percentile by the linear-interpolation definition, Gini by the sorted formula, block share by comparison of exact multiples."),
"P13": ("generated bars vs. dict of levels",
 "Prices are grid levels (several ticks), amounts and factors dyadic so that the diagonal imbalance comparisons are exact. Oracle: dict level->[buy, sell] volumes and ticks, documented rules for imbalance flags, sums, longest run and controlling level."),
"P14": ("stateful: sequences of conversions and slices vs. list model",
 "Generated: footprints (ragged, equal-length, single-bar), then random sequences of conversion between list representations, integer/slice/time indexing (open ends, bounds on stamps, strings and Timestamps) and table export; after every step all per-bar arrays must equal the model's."),
"P15": ("generated price grids vs. decimal arithmetic",
 "Generated: grids mantissa x 10^-d with 1-3 digit steps, up to 10 decimals and 1e9 steps, float literals as an exchange prints them. Oracle: integer gcd of mantissas; the sides by the tick rule on integers. The `edge` facet pins the two border cases of the assumption."),
"P16": ("stateful: store, process, read histories vs. trades model",
 "Generated: several months of trades in a store, processing in any order or again with overwriting, appends in between, then reads by closed ranges and timeframes. Oracle: one-second bars and their resampling computed from the model's trades with integer clocks."),
"P17": ("generated paths vs. direct search for the first touch",
 "Generated: price paths, events, targets (zero, tiny, huge), multipliers including +-inf and zero, holding periods that end on, before or after observations, minimum close delays, sides and minimum returns. Oracle: for each event walk forward and stop at the first touched barrier. `independence`: labels of one event never depend on the other events."),
"P18": ("generated feature/trade tables vs. per-event reference",
 "Generated: feature rows before, between, on and after trades, targets NaN or below the minimum, extra columns that start late, meta-labelling, the same kit used again on more trades. Oracle: P17's reference applied at the row's time, row-wise; weights are recomputed from the table's rows by P19's formulas, also for a training window (a subset of the labels)."),
"P19": ("generated label spans vs. per-observation counts",
 "Generated: overlapping, nested, disjoint, empty spans; `wide` has thousands of labels. Oracle: counting loops with fractions. `reference` also reverses the label order and adds disjoint labels and expects the same weights; `wide` drives the counter up to its integer width (known finding)."),
"P20": ("generated weights vs. closed forms",
 "Decay checked as a function of cumulative uniqueness (piecewise affine, end points, monotone), class balance by per-class sums and within-class ratios, the final weights by their product. Ties, zero-uniqueness, single classes and requested oldest weights -1..1 generated."),
"P21": ("generated paths vs. reference filter with margin filter",
 "As P09 for the event filter with scalar and per-observation thresholds, ties constructed exactly (equal powers of two), lagged returns located in integer nanoseconds."),
"P22": ("generated bars and footprints vs. integer profile model",
 "Oracle: for each window sum the integer volumes per level, bucket, take the maximum, grow the value area; where several levels tie any is accepted. Facets: raw and bucketed profiles, sub-ranges, developing profiles, footprints from trades, and a bulk facet with thousands of bars. Fields that depend on anything outside the window fail since the model only sees the window."),
"P23": ("generated series vs. window-by-window definitions",
 "Each estimator against a direct O(n*w) definition (math.fsum / fractions where it matters) on every window, both backends, compiled and interpreted; generated series have constants, huge offsets, missing values (single, runs, leading), tiny variation; the bulk facets have lengths beyond block sizes. Every window length, span, ddof, half-life and normalisation is drawn."),
"P24": ("generated series vs. window-by-window definitions",
 "As P23 for 17 indicators, with ticks from 2^-27 (an asset quoted in 1e-8) to 1024, and scale-free indicators again on the same prices times eight. Bounds follow from the definitions and are checked with them. `variance_ratio_scale` isolates the known finding."),
"P25": ("generated series vs. window-by-window definitions",
 "As P23 for VWAP distance, flow acceleration, VPIN and correlations; empty-volume windows, one-sided flows, monotone windows."),
"P26": ("generated instants vs. datetime/zoneinfo-free calendar arithmetic",
 "Oracle: Python's `datetime` on UTC. Instants are drawn at and one nanosecond/second around midnights, session opens and closes, weekends, leap days, DST dates, with any index unit and tz-aware indexes."),
"P27": ("generated series vs. brute-force maximum",
 "Oracle: direct maximum over all reference points with the definition's standardisation (O(n^2)); critical value of any maximising point accepted; the rolling test is judged by the same maximum on each window; `window` alters observations outside the window (earlier and later) and expects identical values."),
"P28": ("metamorphic: altered, removed or appended future",
 "For every built-in transform with drawn parameters, every expression of the generator and every kit: two tables share a prefix and differ after it (cut, altered values, other spacing, extra days); values up to the cut must agree."),
"P29": ("bitwise snapshots around generated call histories",
 "Every public entry point (bars, labels, features, stores) is drawn with inputs that share arrays and tables; bytes of all inputs are compared before and after each call, and each call is repeated in the history and must agree."),
"P30": ("generated tables vs. declared outputs; differential between backends",
 "Generated: tables with permuted columns, duplicate stamps, second to nanosecond index units, tz-aware, missing columns, non-time indexes; every transform and both backends."),
"P31": ("generated expression trees vs. plain loops",
 "Trees over ~25 operators and all transforms with constants, reflected operators, clip/lag/log/rolling; the oracle evaluates each operator node in pure Python on the evaluated operands, so an error in any node is local and shrinks well."),
"P32": ("stateful: kits in any order vs. each feature alone",
 "Generated: kits with shared sub-expressions, equal output names, features declared on other features' outputs, renames, custom output names, given and topological order, both backends and repeated builds, retained columns. `equal_output_names` draws every way two built-in transforms can share an output name with different parameters. Oracle: the same feature computed alone on a fresh copy of the table."),
"P33": ("round trip through JSON",
 "Every built-in transform with every parameter drawn away from its default, expression trees, pipelines and kits: save, load through JSON text, compare names and values on a generated table."),
"P34": ("differential: compiled vs. interpreted process; metamorphic: foreign memory, threads",
 "Each case runs in a compiled worker and an interpreted peer process (`NUMBA_DISABLE_JIT=1`) on the same inputs. `memory` places the input arrays inside larger buffers with two different foreign fillings (so reads before the start or past the end change the result) with MALLOC_PERTURB_ set; `threads` compares 1-3 threads; `modes_extreme` uses NaN, infinities, zeros, empty, one- and two-element inputs."),
"P35": ("metamorphic: truncated histories",
 "Every bar kit, event filter and labelling call on a history and on a prefix of it; finished bars with all features, events and resolved labels of the prefix must reappear unchanged; cut points include the middle of equal stamps and the closing trade of a bar."),
"P36": ("generated archives vs. their rows; fake exchange for the pipeline",
 "Generated: zip archives in both layouts, header or not, boolean spellings, unordered rows; month ranges over year boundaries; checksums in several spellings over damaged data (flipped bit, cut, extended); a download-to-store pipeline, run once or twice over growing month ranges, against an in-memory exchange with missing, corrupt, corrupt-then-good and checksum-less archives. The network library is a stand-in, nothing leaves the scratch folder."),
"P37": ("generated arrays vs. sorting, counting and comparing in plain Python",
 "Trades with any disorder and repeated stamps: the sorted arrays hold the same multiset of (time, price, amount, side) rows in time order. Stamp lists in order or with one step back of as little as a nanosecond, also beyond 2**53. Triples in all six orders."),
}
