"""Catalogue of the toolkit's aggregates: how to generate input for each, how to read every answer of its result
(function form and arrow form), how to roll results up, and which evaluation strategies it supports."""
import gen
from pg import *


class Acc:
    """one answer of a summary: fn / arrow are SQL with {a} for the summary; srf: returns a set"""

    def __init__(self, fn, arrow=None, mode="exact", srf=False, name=None):
        self.fn, self.arrow, self.mode, self.srf, self.name = fn, arrow, mode, srf, name or fn.split("(")[0]

    @staticmethod
    def _sql(e, srf, a):
        e = e.replace("{a}", a)
        return "(SELECT coalesce(string_agg(z::text, ';' ORDER BY o), 'none') FROM (SELECT z, row_number() OVER () o FROM (SELECT %s z WHERE %s IS NOT NULL) q1) q2)" % (e, a) if srf \
            else "(CASE WHEN %s IS NOT NULL THEN %s END)::text" % (a, e)

    def sql(self, a):
        return self._sql(self.fn, self.srf, a)

    def arrow_sql(self, a):
        return self._sql(self.arrow, self.srf, a)


def A(name, *args, mode="exact", srf=False, first=False, arrow=True):
    al = ", ".join(args)
    fn = "%s(%s)" % (name, ", ".join((list(args) + ["{a}"]) if first else (["{a}"] + list(args))))
    ar = None if arrow is False else "{a} -> %s(%s)" % (name if arrow is True else arrow, al)
    return Acc(fn, ar, mode, srf)


class Kind:
    """cols: [(name, type)]; rows(r, n): rows of SQL literals, in time order when the aggregate has a time;
    agg(r): aggregate expression over the columns ({o} is the place of an ORDER BY); accs(r, rows)
    order: the answer may depend on the row order; partial: has combine and serialize functions
    overlap: partial states over interleaved time ranges are refused (documented: summaries must not overlap)
    roll: aggregate expression to roll {a} up; pieces: any | time (pieces must be contiguous in time)"""

    def __init__(self, name, ty, cols, rows, agg, accs, order=False, partial=True, overlap=False, roll="rollup({a})", pieces="any",
                 flush=False, parallel=True, approx=False):
        self.name, self.ty, self.cols, self.rows, self.agg, self.accs = name, ty, cols, rows, agg, accs
        self.order, self.partial, self.overlap, self.roll, self.pieces, self.flush, self.parallel, self.approx = \
            order, partial, overlap, roll, pieces, flush, parallel, approx

    @property
    def refuses_null(self):
        """a NULL time is refused rather than ignored"""
        return self.name in ("heartbeat", "gp_lttb", "lttb", "compact_state_text", "compact_state_bigint", "state_text", "state_bigint") or self.name[:5] in ("max_n", "min_n")

    def coldefs(self):
        return ", ".join("%s %s" % c for c in self.cols)

    def colnames(self):
        return ", ".join(c[0] for c in self.cols)


def x_rows(r, n, kind=None):
    return [[f_lit(v)] for v in gen.floats(r, n, kind)]


def xs(rows, i=0):
    return [r[i] for r in rows]


def pick_q(r):
    return f_lit(r.choice([0.0, 1.0, 0.5, 0.25, 0.99, round(r.random(), 4)]))


# ---- statistics
def stats1_accs(r, rows):
    m = r.choice(["'pop'", "'population'", "'sample'", "'samp'"])
    return [A("num_vals"), A("sum", mode="f"), A("average", mode="f")] + \
        [A(x, m, mode="f") for x in ("stddev", "variance")] + [A(x, m, mode="h") for x in ("skewness", "kurtosis")]


def stats2_accs(r, rows):
    m = r.choice(["'pop'", "'population'", "'sample'", "'samp'"])
    return [A("num_vals"), A("sum_x", mode="f"), A("sum_y", mode="f"), A("average_x", mode="f"), A("average_y", mode="f"),
            A("slope", mode="h"), A("intercept", mode="h"), A("x_intercept", mode="h"), A("corr", mode="h"), A("covariance", m, mode="h"),
            A("determination_coeff", mode="h")] + \
        [A(x + s, m, mode="f") for x in ("stddev_", "variance_") for s in "xy"] + [A(x + s, m, mode="h") for x in ("skewness_", "kurtosis_") for s in "xy"]


def stats2_rows(r, n):
    return [[f_lit(v), f_lit(w)] for v, w in zip(gen.floats(r, n), gen.floats(r, n))]


# ---- time series of values
def tv_rows(vals):
    def f(r, n):
        return [[ts_lit(t), f_lit(v)] for t, v in zip(gen.times(r, n), vals(r, n))]
    return f


def _ts(rows, i=0):
    """the times of rows, back in microseconds"""
    return [ts_parse(x[i].split("'")[1].replace("'", "")) for x in rows]


def bounds_of(r, rows):
    t = _ts(rows)
    lo, hi = min(t) - r.choice([0, 1, US, 10 ** 9]), max(t) + r.choice([1, US, 10 ** 9])
    return "tstzrange(%s,%s)" % (ts_lit(lo), ts_lit(hi))


def window_of(r, rows):
    t = _ts(rows)
    lo = min(t) - r.choice([0, 1, 10 * US])
    return ts_lit(lo), iv_lit(max(t) - lo + r.choice([1, 1, 10 * US, 10 ** 9]))


def cg_accs(gauge):
    def f(r, rows):
        m = "'prometheus'"
        out = [A("delta", mode="f"), A("rate", mode="f"), A("time_delta"), A("irate_left"), A("irate_right"), A("idelta_left"), A("idelta_right"),
               A("num_elements"), A("num_changes"), A("slope", mode="h"), A("intercept", mode="h"), A("corr", mode="h")]
        if not gauge:
            b = bounds_of(r, rows)
            st, ln = window_of(r, rows)
            nul = "NULL::countersummary"
            out += [A("num_resets"), A("first_time"), A("last_time"), A("first_val"), A("last_val"), A("counter_zero_time", mode="h"),
                    Acc("extrapolated_delta(with_bounds({a}, %s), %s)" % (b, m), "{a} -> with_bounds(%s) -> extrapolated_delta(%s)" % (b, m), "f"),
                    Acc("extrapolated_rate(with_bounds({a}, %s), %s)" % (b, m), "{a} -> with_bounds(%s) -> extrapolated_rate(%s)" % (b, m), "f"),
                    A("interpolated_delta", st, ln, nul, nul, mode="f"), A("interpolated_rate", st, ln, nul, nul, mode="f")]
        else:
            b = bounds_of(r, rows)
            nul = "NULL::gaugesummary"
            st, ln = window_of(r, rows)
            out += [Acc("gauge_zero_time({a})", "{a} -> counter_zero_time()", "h"),
                    Acc("extrapolated_delta(with_bounds({a}, %s))" % b, "{a} -> with_bounds(%s) -> extrapolated_delta('prometheus')" % b, "f"),
                    Acc("extrapolated_rate(with_bounds({a}, %s))" % b, "{a} -> with_bounds(%s) -> extrapolated_rate('prometheus')" % b, "f"),
                    A("interpolated_delta", st, ln, nul, nul, mode="f", arrow=False), A("interpolated_rate", st, ln, nul, nul, mode="f", arrow=False)]
        return out
    return f


def tw_accs(r, rows):
    st, ln = window_of(r, rows)
    nul = "NULL::timeweightsummary"
    u = r.choice(["'second'", "'s'", "'ms'", "'hour'", "'us'", "'minute'"])
    return [A("average", mode="f"), A("integral", u, mode="f"), A("first_val"), A("last_val"), A("first_time"), A("last_time"),
            A("interpolated_average", st, ln, nul, nul, mode="f"), A("interpolated_integral", st, ln, nul, nul, u, mode="f")]


# ---- sketches
def any_rows(r, n):
    ty = r.choice(["text", "bigint", "float8", "timestamptz", "numeric", "uuid", "boolean", "interval"])
    pool = max(1, r.choice([2, 5, n, 10 * n]))
    def v(k):
        if ty == "text":
            return s_lit(r.choice(["v%d", "é%d", "%d'\"", " %d "]) % k)
        if ty == "float8":
            return f_lit(k / 7.0)
        if ty == "timestamptz":
            return ts_lit(k * 977777)
        if ty == "uuid":
            return "'00000000-0000-0000-0000-%012x'::uuid" % k
        if ty == "boolean":
            return "true" if k % 2 else "false"
        if ty == "interval":
            return "'%d us'::interval" % k
        return "%d::%s" % (k, ty)
    return ty, [[v(r.randrange(pool))] for _ in range(n)]


def hll_accs(r, rows):
    return [A("distinct_count"), A("stderror")]


def udd_accs(r, rows):
    q, v = pick_q(r), r.choice(rows)[0]
    arr = "ARRAY[%s]::float8[]" % ",".join(pick_q(r) for _ in range(r.choice([0, 1, 2, 4, 30])))
    return [A("num_vals"), A("error"), A("mean", mode="f"), A("approx_percentile", q, first=True), A("approx_percentile_rank", v, first=True),
            Acc("approx_percentile_array(%s, {a})" % arr, "{a} -> approx_percentiles(%s)" % arr)]


def td_accs(r, rows):
    return [A("num_vals"), A("min_val"), A("max_val"), A("mean", mode="f")]


def td_accs_all(r, rows):
    return td_accs(r, rows) + [A("approx_percentile", pick_q(r), first=True), A("approx_percentile_rank", r.choice(rows)[0], first=True)]


def nm_accs(r, rows):
    return [A("into_array"), A("into_values", srf=True)]


def by_accs(dummy):
    def f(r, rows):
        return [Acc("into_values({a}, NULL::%s)" % dummy, None, srf=True, name="into_values")]
    return f


RAW_ANY = {"text": "'x'::text", "float8": "0::float8", "timestamptz": "now()", "numeric": "0::numeric"}


def freq_accs(ty):
    def f(r, rows):
        raw = ty.startswith("raw ")
        v = r.choice(rows)[0]
        n = str(r.choice([1, 1, 2, 3, 8]))
        if raw:
            if ty == "raw text":
                v += "::text"
            d = RAW_ANY[ty[4:]]
            return [Acc("into_values({a}, %s)" % d, srf=True), A("min_frequency", v, arrow=False), A("max_frequency", v, arrow=False),
                    Acc("topn({a}, %s, %s)" % (n, d), srf=True)]
        return [A("into_values", srf=True), A("min_frequency", v, arrow=ty == "bigint"), A("max_frequency", v, arrow=ty == "bigint"),
                Acc("topn({a}, %s)" % n, "{a} -> topn(%s)" % n, srf=True)]
    return f


def cms_accs(r, rows):
    return [Acc("toolkit_experimental.approx_count(%s, {a})" % x) for x in {r.choice(rows)[0] for _ in range(3)}]


def cand_accs(r, rows):
    return [A(x) for x in ("open", "high", "low", "close", "open_time", "high_time", "low_time", "close_time")] + \
        [A("volume", mode="f", arrow=False), A("vwap", mode="f", arrow=False)]


def cand_rows(r, n):
    v = gen.floats(r, n, "small")
    return [[ts_lit(t), f_lit(p), f_lit(w)] for t, p, w in zip(gen.times(r, n), v, gen.floats(r, n, r.choice(["unit", "small"]), nonneg=True))]


# ---- states
def st_rows(ty):
    def f(r, n):
        k = r.choice([1, 2, 3, 6])
        pool = [s_lit(x) for x in ["a", "bé", "", "x y", "it's", "OK"]] if ty == "text" else ["%d::bigint" % x for x in [0, 1, -1, 2 ** 40, -2 ** 63 + 1, 7]]
        return [[ts_lit(t), r.choice(pool[:k])] for t in gen.times(r, n)]
    return f


def st_accs(ty, compact):
    x = "toolkit_experimental." if compact else ""
    def f(r, rows):
        s = r.choice(rows)[1]
        t = _ts(rows)
        st, ln = window_of(r, rows)
        i = "int_" if ty == "bigint" else ""
        out = [A(x + "into_%svalues" % i, srf=True, arrow=False if compact else True), A(x + "duration_in", s, arrow=not compact)]
        if compact:
            nul = "NULL::toolkit_experimental.compactstateagg"
            # values in an unspecified order: compare them sorted
            out[0].fn = "(SELECT array_agg(v ORDER BY v::text COLLATE \"C\") FROM (SELECT %sinto_%svalues({a}) v) k)" % (x, i)
            out[0].srf = False
            return out + [A(x + "interpolated_duration_in", s, st, ln, nul, arrow=False)]
        nul = "NULL::stateagg"
        p = ts_lit(r.choice(t) + r.choice([0, 0, 1, -1]))
        out[0].fn = "(SELECT array_agg(v ORDER BY v::text COLLATE \"C\") FROM (SELECT into_%svalues({a}) v) k)" % i
        out[0].arrow = "(SELECT array_agg(v ORDER BY v::text COLLATE \"C\") FROM (SELECT {a} -> into_%svalues() v) k)" % i
        out[0].srf = False
        rng = [s, st] + ([ln] if r.random() < .6 else [])
        return out + [A("duration_in", *rng), A("state_at_int" if i else "state_at", p), A("state_%stimeline" % i, srf=True), A("state_periods", s, srf=True),
                      A("interpolated_duration_in", s, st, ln, nul), A("interpolated_state_%stimeline" % i, st, ln, nul, srf=True),
                      A("interpolated_state_periods", s, st, ln, nul, srf=True)]
    return f


def hb_rows(r, n):
    return [[ts_lit(t)] for t in gen.times(r, n, r.choice(["s", "reg", "h", "ms"]))]


def hb_agg(r, rows):
    t = _ts(rows)
    lo, hi = min(t), max(t)
    ln = r.choice([1, US, 10 * US, 60 * US, 3600 * US])
    start = lo - r.choice([0, US])
    width = hi - start + r.choice([1, ln, 10 * ln]) + ln
    return "heartbeat_agg(t, %s, %s, %s{o})" % (ts_lit(start), iv_lit(width), iv_lit(ln))


def hb_accs(r, rows):
    t = _ts(rows)
    p = ts_lit(max(min(t), min(max(t), r.choice(t) + r.choice([0, 1, -1, US, 10 * US]))))
    st = ts_lit(min(t))
    ln = iv_lit(max(1, (max(t) - min(t)) // 2))
    nul = "NULL::heartbeatagg"
    return [A("live_ranges", srf=True), A("dead_ranges", srf=True), A("uptime"), A("downtime"), A("num_live_ranges"), A("num_gaps"), A("live_at", p),
            A("interpolated_uptime", nul), A("interpolated_downtime", nul), Acc("live_ranges(interpolate({a}, %s))" % nul, "{a} -> interpolate(%s) -> live_ranges()" % nul, srf=True),
            Acc("live_ranges(trim_to({a}, %s, %s))" % (st, ln), "{a} -> trim_to(%s, %s) -> live_ranges()" % (st, ln), srf=True)]


def tvec_accs(r, rows):
    t = _ts(rows)
    v2 = "(SELECT timevector(t,v) FROM (VALUES %s) k(t,v))" % ",".join("(%s,%s)" % (ts_lit(x + r.choice([0, 1, -1, US])), f_lit(float(i))) for i, x in enumerate(t[:4]))
    T = "toolkit_experimental."
    out = [A("unnest", srf=True), Acc("%sto_plotly({a})" % T), Acc("%sto_text({a}, '{{TIMES}} {{VALUES | json_encode() | safe}}')" % T),
           Acc("{a}::text", name="text")]
    return out


def tv_any(r, n):
    return [[ts_lit(t), f_lit(v)] for t, v in zip(gen.times(r, n), gen.floats(r, n))]


def count_rows(r, n):
    return [[s_lit("k%d" % r.randrange(12))] for _ in range(n)]


def ints(r, n):
    return [["%d::bigint" % r.choice([r.randint(-50, 50), r.randint(-2 ** 63 + 1, 2 ** 63 - 1)])] for _ in range(n)]


def tss(r, n):
    return [[ts_lit(t)] for t in r.sample(gen.times(r, n), n)]


def by(rowf, ty):
    def f(r, n):
        # distinct keys: with equal keys either row's data may be kept
        seen, out = set(), []
        for row in rowf(r, n):
            if row[0] not in seen:
                seen.add(row[0])
                out.append(row + [s_lit("d%d" % len(out))])
        return out
    return f


def const(e):
    return lambda r, rows: e


def nagg(f, extra=""):
    return lambda r, rows: "%s(x%s, %d{o})" % (f, extra, r.choice([1, 2, 3, 5, 10, 40]))


def fixed_udd(r, rows):
    return r.choice(["percentile_agg(x{o})", "uddsketch(%d, %s, x{o})" % (r.choice([20, 100, 500]), r.choice(["0.001", "0.05", "0.2"]))])


X = [("x", "float8")]
TV = [("t", "timestamptz"), ("v", "float8")]


def kinds():
    K = []
    def k(*a, **b):
        K.append(Kind(*a, **b))
    k("stats1d", "statssummary1d", X, x_rows, const("stats_agg(x{o})"), stats1_accs, approx=True)
    k("stats1d_int", "statssummary1d", [("x", "bigint")], lambda r, n: [["%d::bigint" % r.randint(-10 ** 6, 10 ** 6)] for _ in range(n)], const("stats_agg(x{o})"), stats1_accs, approx=True)
    k("stats1d_tf", "statssummary1d", X, x_rows, const("toolkit_experimental.stats_agg_tf(x{o})"), stats1_accs, approx=True, partial=False)
    k("stats2d_tf", "statssummary2d", [("y", "float8"), ("x", "float8")], stats2_rows, const("toolkit_experimental.stats_agg_tf(y, x{o})"), stats2_accs, approx=True, partial=False)
    k("stats1d_no_inv", "statssummary1d", X, x_rows, const("stats_agg_no_inv(x{o})"), stats1_accs, approx=True)
    k("stats2d", "statssummary2d", [("y", "float8"), ("x", "float8")], stats2_rows, const("stats_agg(y, x{o})"), stats2_accs, approx=True)
    k("stats2d_no_inv", "statssummary2d", [("y", "float8"), ("x", "float8")], stats2_rows, const("stats_agg_no_inv(y, x{o})"), stats2_accs, approx=True)
    k("counter", "countersummary", TV, tv_rows(lambda r, n: gen.counter_vals(r, n, True)), const("counter_agg(t, v{o})"), cg_accs(False), overlap=True, pieces="time", parallel=False, approx=True)
    k("counter_bounds", "countersummary", TV, tv_rows(lambda r, n: gen.counter_vals(r, n, True)), lambda r, rows: "counter_agg(t, v, %s{o})" % bounds_of(r, rows), cg_accs(False), overlap=True, pieces="time", parallel=False, approx=True)
    k("gauge", "gaugesummary", TV, tv_rows(gen.counter_vals), const("gauge_agg(t, v{o})"), cg_accs(True), overlap=True, pieces="time", parallel=False, approx=True)
    k("gauge_bounds", "gaugesummary", TV, tv_rows(gen.counter_vals), lambda r, rows: "gauge_agg(t, v, %s{o})" % bounds_of(r, rows), cg_accs(True), overlap=True, pieces="time", parallel=False, approx=True)
    for m in ("Linear", "LOCF"):
        k("time_weight_" + m.lower(), "timeweightsummary", TV, tv_any, const("time_weight('%s', t, v{o})" % m), tw_accs, overlap=True, pieces="time", parallel=False, approx=True)
    k("hll", "hyperloglog", None, any_rows, lambda r, rows: r.choice(["approx_count_distinct(x{o})", "hyperloglog(%d, x{o})" % (2 ** r.choice([4, 6, 10, 14, 18]))]), hll_accs)
    k("udd", "uddsketch", X, x_rows, fixed_udd, udd_accs)
    k("tdigest", "tdigest", X, x_rows, lambda r, rows: "tdigest(%d, x{o})" % r.choice([10, 20, 100]), td_accs, flush=True, order=True)
    for f in ("max_n", "min_n"):
        m = f[:3]
        k(f + "_f", m + "floats", X, x_rows, nagg(f), nm_accs)
        k(f + "_i", m + "ints", [("x", "bigint")], ints, nagg(f), nm_accs)
        k(f + "_t", m + "times", [("x", "timestamptz")], tss, nagg(f), nm_accs)
        k(f + "_by_f", m + "byfloats", X + [("d", "text")], by(x_rows, 0), nagg(f + "_by", ", d"), by_accs("text"), partial=False)
        k(f + "_by_i", m + "byints", [("x", "bigint"), ("d", "text")], by(ints, 0), nagg(f + "_by", ", d"), by_accs("text"), partial=False)
        k(f + "_by_t", m + "bytimes", [("x", "timestamptz"), ("d", "text")], by(tss, 0), nagg(f + "_by", ", d"), by_accs("text"), partial=False)
    # few distinct values: these sketches are exact then, whatever the order
    few_t = lambda r, n: [[s_lit("w%d" % min(int(r.expovariate(.6)), 9))] for _ in range(n)]
    few_b = lambda r, n: [["%d::bigint" % (min(int(r.expovariate(.6)), 9) * 10 ** 17)] for _ in range(n)]
    for ty, rows, acc in (("text", few_t, "text"), ("bigint", few_b, "bigint")):
        k("freq_" + ty, "spacesaving%saggregate" % ty, [("x", ty)], rows, const("toolkit_experimental.freq_agg(0.05, x{o})"), freq_accs(acc), order=True)
        k("mcv_" + ty, "spacesaving%saggregate" % ty, [("x", ty)], rows, lambda r, rows: "mcv_agg(%d, x{o})" % r.choice([10, 12, 20]), freq_accs(acc), order=True)
    few_f = lambda r, n: [[f_lit([0.1 + 0.2, 0.3, 1e22 / 3, -0.1, 1 / 3, 5e-324, 1e308, 123456789.123456789, 7.0, 0.1 + 0.7][min(int(r.expovariate(.6)), 9)])] for _ in range(n)]
    few_z = lambda r, n: [[ts_lit([0, 1, -1, 10 ** 15 + 1, -10 ** 15 - 7, 13, 6 * 3600 * US, 86400 * US * 45, 777, 10 ** 17][min(int(r.expovariate(.6)), 9)])] for _ in range(n)]
    few_n = lambda r, n: [["%s::numeric" % ["0.10", "0.2", "1e30", "123456789012345678901234567890.5", "-7", "3", "0.3333333333333333333333333", "1e-30", "11", "12"][min(int(r.expovariate(.6)), 9)]] for _ in range(n)]
    for nm, ty, rw in (("", "text", few_t), ("_f", "float8", few_f), ("_z", "timestamptz", few_z), ("_n", "numeric", few_n)):
        k("raw_freq" + nm, "spacesavingaggregate", [("x", ty)], rw, const("toolkit_experimental.raw_freq_agg(0.05, x{o})"), freq_accs("raw " + ty), order=True)
        k("raw_mcv" + nm, "spacesavingaggregate", [("x", ty)], rw, const("raw_mcv_agg(10, x{o})"), freq_accs("raw " + ty), order=True)
    k("count_min", "toolkit_experimental.countminsketch", [("x", "text")], count_rows, const("toolkit_experimental.count_min_sketch(x, 0.01, 0.01{o})"), cms_accs, roll=None)
    k("candlestick", "candlestick", [("t", "timestamptz"), ("p", "float8"), ("w", "float8")], cand_rows, const("candlestick_agg(t, p, w{o})"), cand_accs, approx=True)
    for ty in ("text", "bigint"):
        k("state_" + ty, "stateagg", [("t", "timestamptz"), ("s", ty)], st_rows(ty), const("state_agg(t, s{o})"), st_accs(ty, False), pieces="time")
        k("compact_state_" + ty, "toolkit_experimental.compactstateagg", [("t", "timestamptz"), ("s", ty)], st_rows(ty), const("toolkit_experimental.compact_state_agg(t, s{o})"),
          st_accs(ty, True), roll="toolkit_experimental.rollup({a})", pieces="time")
    k("heartbeat", "heartbeatagg", [("t", "timestamptz")], hb_rows, hb_agg, hb_accs, partial=False, pieces="none")
    k("timevector", "timevector_tstz_f64", TV, tv_any, const("timevector(t, v{o})"), tvec_accs, order=True)
    k("lttb", "timevector_tstz_f64", TV, tv_any, lambda r, rows: "lttb(t, v, %d{o})" % r.randint(3, 20), tvec_accs, partial=False, pieces="none")
    k("gp_lttb", "timevector_tstz_f64", TV, tv_any, lambda r, rows: r.choice(["toolkit_experimental.gp_lttb(t, v, %d{o})" % r.randint(3, 20), "toolkit_experimental.gp_lttb(t, v, %s, %d{o})" % (
        iv_lit(r.choice([1, US, 3600 * US])), r.randint(3, 20))]), tvec_accs, partial=False, pieces="none")
    k("asap", "timevector_tstz_f64", TV, tv_any, lambda r, rows: "asap_smooth(t, v, %d{o})" % r.randint(3, 50), tvec_accs, partial=False, pieces="none")
    return K


KINDS = {k.name: k for k in kinds()}


def instance(r, name=None, n=None):
    """a kind with rows: returns (kind, columns, rows)"""
    k = KINDS[name or r.choice(sorted(KINDS))]
    n = n or gen.size(r, 60)
    if k.cols is None:
        ty, rows = k.rows(r, n)
        return k, [("x", ty)], rows
    return k, k.cols, k.rows(r, n)


def same(mode, a, b):
    """are two answers (text) the same: exactly, or up to float rounding"""
    if a == b:
        return True
    if mode == "h":  # ill-conditioned: compared elsewhere with exact arithmetic
        return True
    if mode == "exact" or a is None or b is None:
        return False
    try:
        x, y = f_parse(a), f_parse(b)
    except ValueError:
        return False
    if x != x or y != y:
        return x != x and y != y
    if x in (float("inf"), float("-inf")):
        return x == y
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) + 1e-9
