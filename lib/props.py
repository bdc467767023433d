"""The properties. `python3 lib/props.py` writes properties.jsonl and MANIFEST.json for those with a check module."""
import json, os

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", tech="reference-model monitor over recorded query results", observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=mech, note=note, tech=tech, observe=observe or ["SQL results of the accessors, at the client"], level=level))


X = "extension/src/"
SAMPLE = "The tests compute a handful of hand-picked series; the property quantifies over every series."

prop("C01", "Counter and gauge aggregates report what the series itself shows",
     "For every set of (time, value) rows in any order, with NULLs and duplicates, counter_agg and gauge_agg report exactly the points with both fields present: num_elements, num_changes, num_resets, first/last value and time, delta, rate, time_delta, idelta/irate on both sides, and the regression (slope, intercept, corr, zero time) of the reset-adjusted values. A decrease in a counter is a reset that adds the previous value; several rows with one timestamp count as one point. Rows with a NULL are ignored and an aggregate over only such rows is NULL.",
     "every multiset of (time, value) rows and every input order", SAMPLE,
     [X + "counter_agg.rs", X + "gauge_agg.rs", "crates/counter-agg/src/lib.rs"],
     [("sort of the batch and MetricSummary::add_point", "crates/counter-agg/src/lib.rs"), ("CounterSummaryTransitionState::combine_points", X + "counter_agg.rs")])
prop("C02", "Rolling up adjacent counter and gauge summaries equals the direct aggregate",
     "When a series is cut into consecutive pieces whose time ranges do not overlap, rollup of the per-piece counter_agg or gauge_agg summaries answers every accessor as the aggregate of the whole series does, whatever the cuts and whatever order the pieces arrive in, including resets that fall between two pieces. Pieces whose time ranges overlap are rejected with an error rather than silently combined.",
     "every series, every way of cutting it, every arrival order of the pieces", "Tests roll up two or three fixed pieces.",
     [X + "counter_agg.rs", X + "gauge_agg.rs", "crates/counter-agg/src/lib.rs"],
     [("MetricSummary::combine", "crates/counter-agg/src/lib.rs"), ("rollup transition/final", X + "counter_agg.rs")])
prop("C03", "Counter extrapolation, bounds and interpolation follow their definitions",
     "extrapolated_delta and extrapolated_rate follow Prometheus's rule for the given bounds, with_bounds keeps exactly the bounds it is given and rejects ones that do not contain the data, and interpolated_delta and interpolated_rate equal the delta and rate of the series whose ends are the linear interpolations at the bucket's edges towards the neighbouring buckets. Without a neighbour on one side the bucket's own first or last point is used.",
     "every series, bounds and bucket layout", SAMPLE,
     [X + "counter_agg.rs", X + "gauge_agg.rs", "crates/counter-agg/src/lib.rs", "crates/counter-agg/src/range.rs", X + "range.rs"],
     [("prometheus_delta / prometheus_rate", "crates/counter-agg/src/lib.rs"), ("interpolate", X + "counter_agg.rs")])
prop("W01", "time_weight gives the exact time-weighted average and integral",
     "For every set of (time, value) rows in any order, average and integral of time_weight('LOCF'|'Linear') equal the area under the step (or piecewise linear) curve through the distinct-time points divided by its duration, or in the requested unit, and first/last value and time are those of the earliest and latest points. A summary of one point has a zero integral and no average.",
     "every multiset of rows, both methods, every unit", SAMPLE,
     [X + "time_weighted_average.rs", "crates/time-weighted-average/src/lib.rs"],
     [("TimeWeightSummary::accum / weighted_sum", "crates/time-weighted-average/src/lib.rs")])
prop("W02", "time_weight rollup and interpolation agree with the whole series",
     "Rolling up time_weight summaries of consecutive pieces gives the summary of the whole series, and overlapping pieces or pieces of different methods are rejected. interpolated_average and interpolated_integral over consecutive buckets use the neighbours' values at the bucket edges exactly as the method prescribes, so that the interpolated integrals of adjacent buckets add up to the integral of the whole range.",
     "every series, cut, bucket layout and method", SAMPLE,
     [X + "time_weighted_average.rs", X + "time_weighted_average/accessors.rs", "crates/time-weighted-average/src/lib.rs"],
     [("combine / combine_summaries", "crates/time-weighted-average/src/lib.rs"), ("with_bounds / interpolate", X + "time_weighted_average.rs")])
prop("S01", "One-variable statistics equal the exact moments of the values",
     "For every column, num_vals, sum, average, variance, stddev, skewness and kurtosis (population and sample) of stats_agg, and of rollup over any partition into groups, equal those of the non-NULL values up to floating-point rounding; statistics that are undefined for so few or so constant values are NULL, NaN or infinite and never a made-up finite number. Non-finite inputs yield the non-finite sum and average that IEEE addition gives.",
     "every column of doubles, every partition into groups", SAMPLE,
     [X + "stats_agg.rs", "crates/stats-agg/src/stats1d.rs", "crates/stats-agg/src/lib.rs"],
     [("StatsSummary1D::accum / combine (Youngs-Cramer)", "crates/stats-agg/src/stats1d.rs")])
prop("S02", "Two-variable statistics equal the exact moments and regression of the pairs",
     "For every set of (y, x) pairs, stats_agg and rollup over any partition of them report the per-axis moments, covariance, correlation, slope, intercept, x-intercept and determination coefficient of the pairs in which both are present, up to floating-point rounding. Quantities that are undefined for the data (fewer than two points, no spread in x) are NULL.",
     "every set of pairs, every partition into groups", SAMPLE,
     [X + "stats_agg.rs", "crates/stats-agg/src/stats2d.rs"],
     [("StatsSummary2D::accum / combine", "crates/stats-agg/src/stats2d.rs"), ("regression accessors", "crates/stats-agg/src/stats2d/stats2d_flat_serialize.rs")])
prop("S03", "Moving-window statistics equal the frame's own statistics",
     "When stats_agg (one or two variables) or rolling is evaluated over a moving window frame, every frame's result is the statistics of exactly the rows in that frame, as if they had been aggregated alone, up to the rounding of the values that passed through. In particular outliers and non-finite values that have left the frame leave no trace.",
     "every column and every window frame", "Tests use a few frames over one smooth series.",
     [X + "stats_agg.rs", "crates/stats-agg/src/stats1d.rs", "crates/stats-agg/src/stats2d.rs"],
     [("inverse transition functions", X + "stats_agg.rs"), ("remove / remove_combined", "crates/stats-agg/src/stats1d.rs")])
prop("D01", "tdigest keeps exact counts and extremes, and bounded monotone estimates",
     "For every sample, num_vals, min_val and max_val of a tdigest (built directly, as a window aggregate, or by rollup of any grouping) are exact over the values that are neither NULL nor NaN, and mean is their mean. approx_percentile and approx_percentile_rank stay inside the sample's range and [0,1], never decrease, return the extremes at 0 and 1, and are within a rank error that shrinks with the configured size and towards the tails. The number of centroids stays proportional to the size.",
     "every sample, digest size, input order and grouping", "Tests check one generated distribution with loose tolerances.",
     [X + "tdigest.rs", "crates/t-digest/src/lib.rs"],
     [("merge_sorted / merge_digests", "crates/t-digest/src/lib.rs"), ("estimate_quantile / estimate_quantile_at_value", "crates/t-digest/src/lib.rs"), ("Builder", "crates/t-digest/src/lib.rs")])
prop("D02", "uddsketch honours the relative error it reports",
     "For every sample, approx_percentile(q) of a uddsketch or percentile_agg, built directly, as a window aggregate or by rollup of any grouping, is within the sketch's reported error, relatively, of the value of rank floor(n*q), and approx_percentile_rank agrees with the true rank up to the values within one bucket of the argument. num_vals, mean and total are exact up to rounding. The error starts at the requested one and grows only when the number of buckets would exceed the requested size.",
     "every sample over both signs and any number of decades, size, error and grouping", "Tests use positive arithmetic progressions and a few sizes.",
     [X + "uddsketch.rs", "crates/udd-sketch/src/lib.rs", "crates/encodings/src/lib.rs"],
     [("add_value / compact_buckets / merge_items / merge_sketch", "crates/udd-sketch/src/lib.rs"), ("compress_buckets / decompress_keys", X + "uddsketch.rs")])
prop("D03", "hyperloglog is a function of the distinct values and close to their number",
     "For every multiset of values of a hashable type, the hyperloglog sketch depends only on the set of distinct non-NULL values (equal values count once whatever their spelling): order, duplicates, deduplication and rollup over any grouping leave it unchanged. distinct_count is within a few reported standard errors of the true number, almost exact while the sketch is sparse, and as a window aggregate every prefix gives the prefix's own estimate.",
     "every multiset, size, order and grouping", "Tests count a few hundred consecutive numbers.",
     [X + "hyperloglog.rs", "crates/hyperloglogplusplus/src/lib.rs", "crates/hyperloglogplusplus/src/sparse.rs", "crates/hyperloglogplusplus/src/dense.rs"],
     [("add / merge / immutable_estimate_count", "crates/hyperloglogplusplus/src/lib.rs"), ("sparse encoding", "crates/hyperloglogplusplus/src/sparse.rs"), ("dense registers", "crates/hyperloglogplusplus/src/registers.rs")])
prop("D04", "count_min_sketch never counts too low and rarely too high",
     "For every stream of texts, approx_count of a count_min_sketch is never below the number of occurrences, never above the number of texts seen, and exceeds the true count by more than error*N at most as often as the requested probability allows. Aggregating in parts, storing and reading back give the same sketch as one serial pass; a sketch of nothing is NULL.",
     "every stream, error, probability and split into parts", "Tests insert 150 numbers with one setting.",
     [X + "countminsketch.rs", "crates/count-min-sketch/src/lib.rs"],
     [("add_value / combine / estimate", "crates/count-min-sketch/src/lib.rs"), ("flat form", X + "countminsketch.rs")])
prop("D05", "freq_agg and mcv_agg bracket true frequencies and miss nothing frequent",
     "For every stream of values of any type, aggregated serially, in partial states or by rollups of rollups: each listed value's true frequency lies in [min_frequency, max_frequency], each value is listed once and in decreasing order of max frequency, the listed counts never exceed the number of values, every value that reaches the requested frequency (or the share mcv_agg sized itself for) is listed, and if all distinct values fit the result is exact. topn returns the head of that list, refuses data not skewed enough for mcv_agg, and no value of one type is ever taken for another's.",
     "every stream, order, parameter and grouping", "Tests use a few triangular and Zipf distributions, mostly through one path.",
     [X + "frequency.rs", X + "pg_any_element.rs", X + "datum_utils.rs"],
     [("SpaceSavingTransState::add / combine", X + "frequency.rs"), ("DatumStore, DatumHashBuilder", X + "datum_utils.rs"), ("topn validation", X + "frequency.rs")])
prop("N01", "max_n and min_n return exactly the n extreme values",
     "For every multiset of bigint, float or timestamp values and every n, into_array and into_values of max_n (min_n) list exactly the n largest (smallest) values in order, or all of them if there are fewer. Input order, partial aggregation over any partition (empty parts included), rollup over any grouping, window frames and a round trip through text change nothing.",
     "every multiset, n, order, partition and grouping", "Tests feed a few fixed arrays.",
     [X + "nmost.rs", X + "nmost/max_int.rs", X + "nmost/min_int.rs", X + "nmost/max_float.rs", X + "nmost/min_float.rs", X + "nmost/max_time.rs", X + "nmost/min_time.rs"],
     [("NMostTransState::new_entry / combine", X + "nmost.rs"), ("rollup / final / serialize of each type", X + "nmost/max_int.rs")])
prop("N02", "max_n_by and min_n_by keep each extreme value with its own row's data",
     "For every multiset of (value, data) rows, max_n_by (min_n_by) lists the n largest (smallest) values in order, each with the data of a row that has that value and no row twice, for data of any type and size. Rollup over any grouping, evaluation as a window aggregate and storing in a table preserve values, data and pairing.",
     "every multiset of rows, data type, n, order and grouping", "Tests use a dozen rows with composite data in one order.",
     [X + "nmost.rs", X + "nmost/max_by_int.rs", X + "nmost/min_by_int.rs", X + "nmost/max_by_float.rs", X + "nmost/max_by_time.rs", X + "datum_utils.rs"],
     [("NMostByTransState", X + "nmost.rs"), ("DatumStore", X + "datum_utils.rs")])
prop("K01", "A candlestick is the open, high, low, close, volume and vwap of its ticks",
     "For every set of ticks, candlestick_agg reports the price and time of the first and last tick, the highest and lowest price with a time at which it occurred, the total volume and the volume-weighted average price; ready-made candlesticks keep their fields. Rollup over any grouping, partial aggregation and window prefixes give the candle of all the ticks; rows with NULLs are ignored as documented and no tick gives NULL.",
     "every set of ticks, order, partition and grouping", "Tests use a handful of ticks and one-level rollups.",
     [X + "candlestick.rs"],
     [("Candlestick::add_tick_data / combine", X + "candlestick.rs"), ("tick_data_transition / candlestick_rollup_trans", X + "candlestick.rs")])
prop("H01", "heartbeat_agg's live time is the union of what its heartbeats cover",
     "For every set of heartbeats in a window, the live ranges are exactly the union of [h, h + liveness) cut to the window, merged where they touch; the dead ranges are the rest of the window; uptime and downtime are their total lengths and add up to the window; num_live_ranges and num_gaps count them; and live_at agrees with them at every instant. Order, duplicates and the number of heartbeats do not matter; heartbeats outside the window are refused.",
     "every set and order of heartbeats, window and liveness", "Tests use a few dozen fixed heartbeats; batching starts at 1000.",
     [X + "heartbeat_agg.rs", X + "datum_utils.rs"],
     [("process_batch / combine_intervals", X + "heartbeat_agg.rs"), ("dead_ranges, live_at, num_gaps", X + "heartbeat_agg.rs")])
prop("H02", "Heartbeat rollup, interpolation and trimming are set operations on live time",
     "The rollup of heartbeat aggregates over any windows, in any order and grouping, is live exactly when one of them is, with a heartbeat's liveness continued across the edge of its own window. interpolate and interpolated_uptime/downtime continue the predecessor's last heartbeat into the window and never beyond it, and trim_to restricts the aggregate to a smaller window and refuses a larger one. Nesting these operations, in function or arrow form, composes accordingly.",
     "every family of windows and heartbeats and every nest of the three operations", "Tests roll up two windows in one order.",
     [X + "heartbeat_agg.rs", X + "heartbeat_agg/accessors.rs"],
     [("HeartbeatTransState::combine / extend_covered_interval", X + "heartbeat_agg.rs"), ("interpolate_start, trim_to", X + "heartbeat_agg.rs")])
prop("A01", "state_agg answers from the sorted timeline of the states it was given",
     "For every set of (time, state) rows in any order, with text or integer states, the timeline of state_agg is the series' runs of equal states, contiguous from the first to the last row; state_periods, state_at, duration_in (whole, from a time, in an interval) and into_values (also of compact_state_agg) are what that timeline says. Repeated rows and NULL states change nothing, two states at one instant are refused, and partial aggregation, window frames and the text form preserve every answer.",
     "every set of rows, state alphabet, order and partition", "Tests use series of about ten rows and ASCII words.",
     [X + "state_aggregate.rs", X + "state_aggregate/accessors.rs"],
     [("make_duration_map_and_bounds, sort_records", X + "state_aggregate.rs"), ("StateEntry (shared state string)", X + "state_aggregate.rs"), ("duration_in_inner, state_at_inner", X + "state_aggregate.rs")])
prop("A02", "state_agg pieces roll up to the whole, and interpolate across bucket edges",
     "Rolling up the state aggregates of consecutive pieces of a series, in any order and grouping, answers every question as the aggregate of the whole series does, the last state of a piece lasting until the next piece begins; overlapping pieces and mixed state types are refused. The interpolated accessors extend a bucket to its start with the predecessor's last state and to its end with its own.",
     "every series, cut, grouping, order and bucket layout", "Tests roll up two or three fixed pieces.",
     [X + "state_aggregate/rollup.rs", X + "state_aggregate.rs", X + "state_aggregate/accessors.rs"],
     [("OwnedCompactStateAgg::merge", X + "state_aggregate/rollup.rs"), ("CompactStateAgg::interpolate", X + "state_aggregate.rs")])
prop("L01", "lttb keeps the ends and, per bucket, the point of the largest triangle",
     "lttb downsamples a series to exactly the resolution asked for (or returns it whole if it has no more points): the first and last point, and from each of the evenly sized buckets in between the point spanning the largest triangle with the point chosen before and the mean of the next bucket. Every point of the result is a point of the input, in time order; NULL values never take part, and aggregate, timevector and pipeline form agree.",
     "every series, order, time range and resolution", "Tests downsample a few fixed short series in the present.",
     [X + "lttb.rs", X + "time_vector/pipeline/expansion.rs"],
     [("lttb", X + "lttb.rs"), ("lttb_ts", X + "lttb.rs")])
prop("L02", "gp_lttb keeps both ends of every gap and downsamples each run like lttb",
     "gp_lttb splits the series wherever two neighbours are further apart than the gap (by default the average distance of the points asked for), keeps the first and last point of every run so that no gap is closed, and spends the rest of the resolution on the runs in proportion to their points, each downsampled by the largest-triangle rule.",
     "every series, layout of gaps, gap size and resolution", "Tests have three fixed gap layouts.",
     [X + "lttb.rs"],
     [("gap_preserving_lttb_final", X + "lttb.rs")])
prop("L03", "asap_smooth is a moving average that smooths but keeps the outliers visible",
     "asap_smooth returns a moving average of the time-ordered series (first averaged into groups when it has more than twice the resolution's points): every value is the exact mean of one window of neighbouring groups, carries the time of the input point at that window's centre, and no window is skipped. The window never lowers the kurtosis nor raises the roughness, and leaves the series at least as smooth as a binary search over windows up to a tenth of it would. Input order and NULL rows do not matter, the timevector form agrees, and a resolution below one is refused.",
     "every series, order and resolution", "Tests smooth one fixed series at one resolution.",
     [X + "asap.rs", "crates/asap/src/lib.rs"],
     [("smooth_points", X + "asap.rs"), ("asap_smooth_with_metadata / binary_search / sma", "crates/asap/src/lib.rs")])
prop("T01", "A timevector holds exactly the points it was given, NULLs included",
     "timevector(time, value) keeps every row with a time, in input order, with its value or its NULL; rollup of timevectors is their concatenation, also when they are empty, stored, or combined from partial aggregates, and never marks unsorted points as sorted. unnest, the text form, to_text, to_plotly and num_vals show exactly those points, non-finite values are refused by the formatters, and asof joins every point with the other series' last value at or before it.",
     "every sequence of rows, every cut into pieces and partial aggregation", "Tests build and combine fixed series of at most a few points.",
     [X + "time_vector.rs", X + "time_vector/iter.rs"],
     [("timevector_trans_inner / combine", X + "time_vector.rs"), ("format_timevector", X + "time_vector.rs"), ("asof_join", X + "time_vector.rs")])
prop("T02", "Every pipeline element does to a timevector what its definition says",
     "Arithmetic elements, map, map_data and map_series change each value (and time) as their function says and nothing else; filter keeps exactly the points that satisfy its predicate together with their NULLs; sort orders by time, keeping the order of equal times; delta and fill_to follow their definitions and refuse unsorted points and NULLs. A result is marked sorted only if it is, NULL points stay NULL, and a failing user function fails the statement.",
     "every timevector and element parameter", "Tests run each element on one fixed series.",
     [X + "time_vector/pipeline/arithmetic.rs", X + "time_vector/pipeline/map.rs", X + "time_vector/pipeline/filter.rs", X + "time_vector/pipeline/sort.rs", X + "time_vector/pipeline/delta.rs", X + "time_vector/pipeline/fill_to.rs"],
     [("arithmetic::apply", X + "time_vector/pipeline/arithmetic.rs"), ("map_lambda_over_series / map_series", X + "time_vector/pipeline/map.rs"), ("filter_lambda_over_series", X + "time_vector/pipeline/filter.rs"), ("fill_to", X + "time_vector/pipeline/fill_to.rs")])
prop("T03", "Lambda expressions evaluate as written",
     "A lambda's value for a point is that of the expression under the usual precedence and associativity, IEEE arithmetic, PostgreSQL's timestamp and interval operators, short-circuit and/or, and its let-bound variables, and it depends on that point alone also when it is applied over a series. Ill-typed, malformed or unknown expressions are refused.",
     "every well- and ill-formed expression, point and series", "Tests evaluate a few dozen fixed expressions at one point.",
     [X + "time_vector/pipeline/lambda.rs", X + "time_vector/pipeline/lambda/parser.rs", X + "time_vector/pipeline/lambda/executor.rs", X + "time_vector/pipeline/lambda/lambda_expr.pest"],
     [("build_expression / PREC_CLIMBER", X + "time_vector/pipeline/lambda/parser.rs"), ("ExpressionExecutor", X + "time_vector/pipeline/lambda/executor.rs")])
prop("T04", "Pipelines compose: grouping and fusing never change the result",
     "Applying a pipeline gives the result of applying its elements one at a time, however they are grouped with parentheses, fused by the planner, stored in a table or cast from text, and fails exactly when that fails; a NULL pipeline or timevector gives NULL. A pipeline ending in unnest, sum, average, num_vals, stats_agg, counter_agg, hyperloglog or percentile_agg gives the same as that aggregate over the resulting points.",
     "every chain of elements, grouping and timevector", "Tests compare a few fixed two-element chains.",
     [X + "time_vector/pipeline.rs", X + "time_vector/pipeline/aggregation.rs", X + "time_vector/pipeline/expansion.rs"],
     [("pipeline_support_helper", X + "time_vector/pipeline.rs"), ("arrow_add_unstable_element / run_pipeline_elements", X + "time_vector/pipeline.rs"), ("finalize_with_*", X + "time_vector/pipeline/aggregation.rs")])
prop("X01", "The answer does not depend on how PostgreSQL evaluates the aggregate",
     "Every aggregate, and every rollup of its results, answers the same when it is evaluated serially, as partial aggregates over partitions or by parallel workers, grouped by hashing or sorting, spilled to disk, in a generic prepared plan, next to other aggregates over the same input, and under any session settings. Counter, gauge and time-weight pieces that interleave in time may be refused, never miscomputed.",
     "every input, partition of it into partial states, plan and session setting", "The test database never chooses a partial or parallel plan.",
     [X + "aggregate_utils.rs", X + "counter_agg.rs", X + "gauge_agg.rs", X + "time_weighted_average.rs", X + "frequency.rs", X + "stats_agg.rs", X + "uddsketch.rs", X + "tdigest.rs", X + "hyperloglog.rs", X + "nmost.rs", X + "candlestick.rs", X + "state_aggregate.rs", X + "time_vector.rs", X + "datum_utils.rs"],
     [("combinefunc / serialfunc / deserialfunc of every aggregate", X + "aggregate_utils.rs"), ("DatumStoreSerializer", X + "datum_utils.rs"), ("PgCollationId, PgTypId", X + "serialization/collations.rs")],
     over=("inputs", "schedules"), tech="differential monitor: forced partial, parallel, hashed and generic plans against one serial pass")
prop("X02", "As a window aggregate, every row's answer is the aggregate of its frame",
     "Every aggregate and rollup used as a window aggregate answers for each row as the plain aggregate of exactly the rows in that row's frame does: taking a result leaves the running state as it was, so later rows, other accessors and other partitions are unaffected. This holds for expanding, moving, excluding and group frames, with FILTER and PARTITION BY.",
     "every input, frame definition and position", "Tests call the final function once per group.",
     [X + "stats_agg.rs", X + "nmost.rs", X + "state_aggregate.rs", X + "tdigest.rs", X + "counter_agg.rs", X + "time_weighted_average.rs", X + "heartbeat_agg.rs", X + "lttb.rs", X + "time_vector.rs"],
     [("final functions that run while the state lives on", X + "nmost.rs"), ("inverse transition functions", X + "stats_agg.rs")],
     over=("inputs", "histories"), tech="differential monitor: every row of a window query against the plain aggregate of its frame")
prop("X03", "Summaries survive being written and read, with every answer unchanged",
     "A summary of any type written as text and read back, stored in a table (also compressed or out of line), copied, or put into an array or row is the same summary: it prints the same text and gives the same answer to every accessor. This holds for any content: NaN, infinite and extreme numbers and times, strings with quotes, backslashes, control or non-Latin characters, NULL points, and under any date, time zone and float settings.",
     "every summary value and every way of storing it", "Tests compare a few literal text forms.",
     [X + "type_builder.rs", X + "serialization.rs", X + "serialization/functions.rs", X + "serialization/types.rs", X + "datum_utils.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs"],
     [("pg_type! text in/out", X + "type_builder.rs"), ("flat_serialize try_ref / fill_slice", "crates/flat_serialize/flat_serialize_macro/src/lib.rs"), ("DatumStore serde", X + "datum_utils.rs")],
     tech="round-trip monitor over hostile contents, all answers compared before and after")
prop("X04", "The arrow form of every accessor gives what its function form gives",
     "For every accessor with an arrow operator, summary -> accessor(args) gives exactly the result, NULL or error of accessor(summary, args), for every summary and every argument, and also when the accessor value is stored in a table or passed through its text form.",
     "every summary, accessor and argument", "Tests show the two forms agree on one example per accessor.",
     [X + "accessors.rs", X + "stats_agg.rs", X + "counter_agg.rs", X + "gauge_agg.rs", X + "time_weighted_average.rs", X + "heartbeat_agg.rs", X + "heartbeat_agg/accessors.rs", X + "state_aggregate/accessors.rs", X + "frequency.rs", X + "candlestick.rs", X + "uddsketch.rs", X + "tdigest.rs", X + "time_vector.rs"],
     [("accessor! types", X + "accessors.rs"), ("arrow_* functions", X + "stats_agg.rs")],
     tech="differential monitor: both forms in one statement")
prop("X06", "NULL rows carry no information, and NULL in gives NULL out",
     "A row whose argument is NULL is ignored: the aggregate is that of the other rows, plainly, over frames, in partial plans and in rollups, where NULL summaries are skipped. No rows, or only NULL ones, give NULL, and NULL arguments of accessors give NULL. The aggregates that instead refuse NULL rows (heartbeat_agg, state_agg, lttb and gp_lttb, max_n and min_n) do so with an error; a timevector keeps a NULL value as a NULL point; candlestick_agg keeps the prices of a row without a volume.",
     "every input and every placement of NULLs in it", "Tests put a NULL into a few fixed inputs, never into a frame or partial state.",
     [X + "aggregate_utils.rs", X + "stats_agg.rs", X + "counter_agg.rs", X + "gauge_agg.rs", X + "time_weighted_average.rs", X + "hyperloglog.rs", X + "uddsketch.rs", X + "tdigest.rs", X + "frequency.rs", X + "nmost.rs", X + "candlestick.rs", X + "countminsketch.rs"],
     [("transition functions' NULL branches", X + "stats_agg.rs"), ("rollup transition functions", X + "counter_agg.rs")],
     tech="metamorphic monitor: the input with NULLs against the input without them")
prop("X05", "No statement takes the server down, however hostile its input",
     "Every SQL statement over the extension's functions, operators, aggregates and types ends with a result or an ordinary error: whatever the argument values and however malformed the text forms, lambdas, pipelines and parameters, the backend never crashes or overflows its stack, a statement can be cancelled, and later statements of the session answer as before.",
     "every value of every argument type and every text form", "Tests pass well-formed values; a crash needs an extreme or malformed one.",
     [X + "type_builder.rs", X + "serialization.rs", X + "serialization/functions.rs", X + "datum_utils.rs", X + "time_vector/pipeline/lambda/parser.rs", X + "frequency.rs", X + "lttb.rs", X + "asap.rs", X + "time_vector.rs", X + "state_aggregate.rs", X + "heartbeat_agg.rs", X + "hyperloglog.rs", "crates/tspoint/src/lib.rs"],
     [("text input of every type", X + "type_builder.rs"), ("decode_timestamptz", X + "serialization.rs"), ("parse_expression", X + "time_vector/pipeline/lambda/parser.rs")],
     tech="crash, hang and canary monitor over type-directed hostile statements",
     observe=["the server process and its log", "SQL results and error codes at the client"])
prop("M01", "The extension reads and writes only memory it owns",
     "Under any statement, with ordinary or hostile values, stored, detoasted, partial, window or cursor-held summaries, and text forms of any content, the extension never reads or writes outside an allocation, uses memory after it is freed, or dereferences an invalid pointer.",
     "every input, evaluation strategy and stored value", "Tests run without a sanitizer, so an out-of-bounds read that hits mapped memory passes.",
     [X + "type_builder.rs", X + "datum_utils.rs", X + "frequency.rs", X + "raw.rs", X + "palloc.rs", X + "nmost.rs", X + "time_vector.rs", X + "state_aggregate.rs", X + "hyperloglog.rs", "crates/flat_serialize/flat_serialize/src/lib.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs", "crates/encodings/src/lib.rs"],
     [("try_ref / fill_slice over stored bytes", "crates/flat_serialize/flat_serialize/src/lib.rs"), ("DatumStore, deep_copy_datum", X + "datum_utils.rs"), ("Inner / ToInternal", X + "palloc.rs")],
     tech="AddressSanitizer build of the extension inside PostgreSQL",
     observe=["AddressSanitizer reports of the server processes"])
prop("Z01", "The utility functions compute exactly what their names say",
     "Saturating arithmetic gives the exact integer result clamped to the type's range. to_epoch, days_in_month and month_normalize follow the calendar in the session's time zone for every time, across leap years, month ends and daylight saving transitions. A generated periodic series has the points, times, bounds and repeatability its arguments describe.",
     "every argument, time and time zone", "Tests pin a few fixed dates and sums in one time zone.",
     [X + "utilities.rs", X + "saturation.rs"],
     [("days_in_month, month_normalize, generate_periodic_normal_series", X + "utilities.rs"), ("saturating_math", X + "saturation.rs")],
     tech="oracle monitor: Python's calendar, zoneinfo and exact integers")
prop("F01", "The flat format holds what was written, and reading stays within the bytes",
     "For every type built with flat_serialize, the bytes written are the fields in order as documented, num_bytes is their number, and reading them in place gives an equal value and the untouched rest; owned copies are equal and outlive the input. Slices over stored elements iterate, index and count the same as the vector. A truncated input is refused as too short and an unknown tag as invalid, never by reading outside the given bytes.",
     "every type definition, value, truncation and tag", "Tests write one value of each type into roomy buffers.",
     ["crates/flat_serialize/flat_serialize/src/lib.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs", "crates/flat_serialize/flat_serialize_macro/src/parser.rs"],
     [("FlatSerializable impls, Iterable, Slice, Unflatten", "crates/flat_serialize/flat_serialize/src/lib.rs"), ("generated try_ref, fill_slice, num_bytes", "crates/flat_serialize/flat_serialize_macro/src/lib.rs")],
     tech="in-process monitor against an independent layout model, under debug assertions, AddressSanitizer and Miri",
     observe=["return values of the crate's API", "sanitizer and Miri reports"])
prop("E01", "Compressed integers and sketch registers hold exactly what was added",
     "Zigzag, delta and prefix-varint coding give back every sequence of 64-bit integers unchanged, in the documented bytes. A hyperloglog sketch holds exactly the registers, or the sparse entries, that the set of hashes added defines, at every precision, whatever the order, repeats, merges and storing in between, and turning sparse into dense loses nothing. Damaged bytes are never read past their end.",
     "every sequence of integers, set of hashes, order and merge", "Tests try a few sequences, and hash values nobody chose.",
     ["crates/encodings/src/lib.rs", "crates/hyperloglogplusplus/src/lib.rs", "crates/hyperloglogplusplus/src/sparse.rs", "crates/hyperloglogplusplus/src/dense.rs", "crates/hyperloglogplusplus/src/registers.rs"],
     [("zigzag, delta, prefix_varint", "crates/encodings/src/lib.rs"), ("Storage::add, merge_all, immutable_to_dense", "crates/hyperloglogplusplus/src/sparse.rs"), ("Registers::at, set_max", "crates/hyperloglogplusplus/src/registers.rs"), ("merge_in", "crates/hyperloglogplusplus/src/lib.rs")],
     tech="in-process monitor with chosen hash values against the definition, under debug assertions, AddressSanitizer and Miri",
     observe=["return values of the crates' API", "sanitizer and Miri reports"])
prop("B01", "A digest built by the client library is the digest the server would build",
     "The client library's C interface builds the same t-digest as the crate for every sequence of pushes and merges, owns and releases memory as documented, and the text it formats is accepted by the server as a tdigest with the same text, percentiles, ranks, extremes, mean, count and rollup as tdigest(size, value) over the same values.",
     "every sequence of values, size and merge", "No test sends a client's digest to the server.",
     ["crates/t-digest-lib/src/lib.rs", "crates/t-digest/src/lib.rs", X + "tdigest.rs"],
     [("timescaledb_toolkit_tdigest_*", "crates/t-digest-lib/src/lib.rs"), ("Builder, format_for_postgres", "crates/t-digest/src/lib.rs"), ("tdigest text input", X + "tdigest.rs")],
     tech="differential monitor: client library against crate and server, under AddressSanitizer and Miri",
     observe=["return values of the C interface", "SQL results"])
prop("U01", "An extension update equals a fresh install and keeps the user's data",
     "From every version named in the control file's upgradeable_from, the update script that tools/post-install generates applies without error, whoever owns the database and whatever schema the extension lives in, and leaves exactly the extension a fresh install of the new version has: the same functions, aggregates, types, operators, casts and schemas with the same definitions and attributes, all bound to the new version's library, nothing missing and nothing left over of what the release removed. Stable objects exist in every later version. Tables, views and functions of the user that use stable objects survive with every value unchanged; objects that depend on the experimental schema are dropped.",
     "every version that can be updated from, every earlier definition of a function or aggregate, and every set of user objects", "The one test of the generator feeds it a single operator; no test runs an update.",
     ["tools/post-install/src/main.rs", "tools/post-install/src/update_script.rs", X + "stabilization_info.rs", "extension/timescaledb_toolkit.control"],
     [("generate_from_install and new_objects", "tools/post-install/src/update_script.rs"), ("add_version_to_install_script", "tools/post-install/src/main.rs"), ("functions_stabilized_at!", X + "stabilization_info.rs")],
     over=("histories", "inputs"), tech="catalog comparison after real ALTER EXTENSION UPDATE runs from simulated earlier versions, with recorded user data",
     observe=["pg_catalog rows of every extension member", "SQL results before and after the update"],
     note="The earlier versions are simulated from the current install script and a recorded list of what each release had stabilised; their real sources are not available offline.")
prop("V01", "Summaries stored by an earlier build keep every answer",
     "A value of a stable summary type that was stored on disk or dumped as text by an earlier build of this version is read by the current build with every accessor's answer unchanged, and rolls up with newly built summaries exactly as a newly built summary of the same rows does. Neither the stored layout, nor the meaning of its codes, nor the hash functions and bucket boundaries behind the sketches change.",
     "every stored summary and every history of builds", "Tests pin the bytes of a few types for one value each.",
     [X + "type_builder.rs", X + "serialization.rs", X + "serialization/types.rs", X + "hyperloglog.rs", X + "uddsketch.rs", X + "state_aggregate.rs", X + "frequency.rs", "crates/flat_serialize/flat_serialize_macro/src/lib.rs"],
     [("pg_type! and ron_inout_funcs!", X + "type_builder.rs"), ("DatumHashBuilder", X + "datum_utils.rs")],
     over=("histories", "inputs"), tech="replay of recorded stored bytes and texts against recorded answers, and mixed rollups of recorded and new summaries")
prop("R01", "A dump restored into another database keeps every answer",
     "pg_dump writes and its script restores, under the empty search_path it sets, every database that uses the extension: summaries of every type, also over enums, composites, domains and collations of the user's own, with views, materialized views, expression indexes, generated columns, column defaults and SQL functions that hold toolkit expressions. The other database may have another locale provider, collation or encoding, be a template, hold the extension in the same non-default schema and give every object another oid: every stored value, view and function answers there what it answered before.",
     "every stored value, every object definition and every pair of databases", "Tests read values back in the database that wrote them, where names and oids are the same.",
     [X + "serialization/types.rs", X + "serialization/collations.rs", X + "serialization/functions.rs", X + "datum_utils.rs", X + "frequency.rs", X + "hyperloglog.rs", X + "type_builder.rs"],
     [("StoredTypeId and PgTypId", X + "serialization/types.rs"), ("PgCollationId", X + "serialization/collations.rs"), ("ron_inout_funcs!", X + "type_builder.rs")],
     over=("inputs", "configurations"), tech="real pg_dump and restore between databases of different locale, encoding and oids, comparing every recorded answer",
     observe=["answers of views, stored values, indexes, generated columns and functions before the dump and after the restore", "psql's errors during the restore"],
     note="Text is restricted to ASCII when the target's encoding is not UTF8.")
prop("Y01", "An answer depends on its arguments, not on the session around it",
     "A statement that names every function, type and operator with its schema gives the same answer whatever the search_path is (empty, without the extension, with decoy functions and types of the same names ahead), whoever runs it (an unprivileged role, a security definer function), in whatever transaction (read only, serializable, after rolled back errors or an interrupt), through whatever path (prepared and generic plans, cursors, PL/pgSQL functions and exception blocks, small work_mem, odd planner settings), the first time or again, and after the extension was dropped and created again in the same session. An error leaves nothing behind that changes a later answer.",
     "every statement and every history of the session before it", "Every test runs in a fresh transaction under the default search path as a superuser.",
     [X + "time_vector.rs", X + "time_vector/pipeline.rs", X + "time_vector/pipeline/map.rs", X + "utilities.rs", X + "aggregate_utils.rs", X + "palloc.rs", X + "datum_utils.rs", X + "serialization/collations.rs"],
     [("is_timevector_type", X + "time_vector.rs"), ("pipeline_support_helper and its cached oid", X + "time_vector/pipeline.rs"), ("extension_sql! functions with SET search_path", X + "utilities.rs")],
     over=("inputs", "histories", "configurations"), tech="differential monitoring of fully qualified statements in an ordinary session and in hostile surroundings",
     observe=["answers and errors of the same statement in both sessions"],
     note="TimeZone and DateStyle are the same in both sessions: they are part of how PostgreSQL reads and writes times.")
prop("G01", "Statements give their memory back; bounded summaries need bounded memory",
     "A session that repeats statements over the extension's aggregates, accessors, rollups, text forms and pipelines any number of times, including ones that fail or are cancelled, does not keep growing. Over a group, an aggregate whose result has a bounded size (statistics, percentile sketches, distinct counts, n extremes, frequency sketches, candlesticks) needs no more memory for a long input than for a short one.",
     "every statement, any number of repetitions, inputs of any length", "Tests run each statement once, on a handful of rows.",
     [X + "palloc.rs", X + "frequency.rs", X + "pg_any_element.rs", X + "nmost.rs", X + "datum_utils.rs", X + "aggregate_utils.rs", X + "hyperloglog.rs", X + "tdigest.rs", X + "uddsketch.rs", X + "stats_agg.rs", X + "countminsketch.rs", X + "time_vector/pipeline.rs", X + "time_vector/pipeline/lambda.rs"],
     [("PallocAllocator, Inner, in_aggregate_context", X + "palloc.rs"), ("SpaceSavingTransState::add", X + "frequency.rs"), ("nmost_trans_function, free_datum", X + "nmost.rs")],
     tech="memory monitor: the backend's private memory read from the kernel over repeated statements and growing inputs",
     observe=["/proc/<pid>/status of the backend serving the workload"])
T = "tools/"
prop("P01", "The documentation testers report exactly the examples that fail",
     "For every tree of Markdown files, sql-doctester runs each SQL example once and reports, at its place and with the right kind of error, exactly those whose query fails or whose rows differ from the shown output up to the tags given (ignore, ignore-output, precision in bytes), and its exit status says whether any did. update-tester does the same for the examples marked for the step and version at hand. Examples do not see each other's effects unless marked non-transactional in the same file, and the test databases are dropped.",
     "every tree of Markdown files, tags, outputs, results and line endings", "The tools' unit tests parse one file each and run no example.",
     [T + "sql-doctester/src/parser.rs", T + "sql-doctester/src/runner.rs", T + "sql-doctester/src/main.rs", T + "update-tester/src/parser.rs", T + "update-tester/src/testrunner.rs", T + "update-tester/src/main.rs"],
     [("extract_tests_from_string", T + "sql-doctester/src/parser.rs"), ("run_tests / validate_output", T + "sql-doctester/src/runner.rs"), ("create_test_objects_from_files / validate_output", T + "update-tester/src/testrunner.rs")])
prop("P02", "The documented examples give the documented results",
     "Every SQL example in docs/ that is not marked ignored runs without an error and gives exactly the rows shown beside it, up to the precision it states; the update examples under tests/update hold when created by one session and validated by another. This does not depend on the planner's choices, work_mem, or whether the statement runs in a parallel worker, save for the order of rows a query leaves open.",
     "every documented example under every planner, memory and worker setting", "The unit tests run none of the documented examples, and nothing runs them under more than one plan.",
     [X + "asap.rs", X + "state_aggregate.rs", X + "counter_agg.rs", X + "time_vector/pipeline.rs"],
     [("examples in Markdown", "docs/"), ("run_tests", T + "sql-doctester/src/runner.rs")])
#NEXT


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    have = [p for p in P if os.path.exists(os.path.join(here, "checks", p["id"].lower() + ".py"))]
    with open(here + "/properties.jsonl", "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py setup",
         "hooks": {"guard": "none", "enable": "no hooks are needed: every check observes through SQL or a harness crate with a path dependency", "source_commits": []},
         "checks": [{"property": p["id"],
                     "quick_cmd": "python3 check.py %s quick" % p["id"],
                     "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": "runtime monitoring: " + p["tech"],
                     "level": p["level"],
                     "level_note": p["note"] or "Held on every execution of the run: seeded hostile workloads on the real extension inside PostgreSQL, judged by an independent exact-arithmetic reference (oracle trusted); nothing is claimed for inputs not driven."}
                    for p in have],
         "not_applicable": []}
    with open(here + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    missing = [p["id"] for p in P if p not in have]
    print("%d properties, without a check yet: %s" % (len(have), missing))


if __name__ == "__main__":
    main()
