"""The arrow form of every accessor gives what its function form gives."""
from run import SqlWorker
from pg import *
import gen, cat, re

ID = "X04"
QUICK, THOROUGH = 1600, 40000
RULE = ("every accessor with an arrow operator, over seeded summaries of every type (fresh, rolled up, after a text round trip, from a table, NULL), both forms in one query and the arrow form "
        "also with the accessor value coming from a column; distinct = distinct (accessor, answers)")
ASSUMPTIONS = ["the accessor trim_to needs a start (it has no form without one)"]
KS = [k for k in sorted(cat.KINDS)]
NAMES = ["average", "sum", "num_vals", "stddev", "variance", "skewness", "kurtosis", "sum_x", "average_y", "stddev_x", "variance_y", "slope", "intercept", "x_intercept", "corr", "covariance",
         "determination_coeff", "delta", "rate", "time_delta", "irate_left", "irate_right", "idelta_left", "idelta_right", "num_elements", "num_changes", "num_resets", "first_time", "last_time",
         "first_val", "last_val", "counter_zero_time", "gauge_zero_time", "extrapolated_delta", "extrapolated_rate", "interpolated_delta", "interpolated_rate", "integral", "interpolated_average",
         "interpolated_integral", "distinct_count", "stderror", "error", "mean", "approx_percentile", "approx_percentile_rank", "approx_percentile_array", "min_val", "max_val", "into_array",
         "into_values", "min_frequency", "max_frequency", "topn", "open", "high", "low", "close", "open_time", "high_time", "low_time", "close_time", "duration_in", "state_at", "state_at_int",
         "state_timeline", "state_int_timeline", "state_periods", "interpolated_duration_in", "interpolated_state_timeline", "interpolated_state_int_timeline", "interpolated_state_periods",
         "live_ranges", "dead_ranges", "uptime", "downtime", "num_live_ranges", "num_gaps", "live_at", "interpolated_uptime", "interpolated_downtime", "unnest", "trim_to", "interpolate"]
MUST_OBSERVE = ["acc:" + n for n in NAMES] + ["round_trip", "rollup", "null_summary", "with_prev", "odd_args", "refusals_compared"]


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        k, cols, rows = cat.instance(r, KS[idx % len(KS)], n=gen.size(r, 40))
        agg = k.agg(r, rows).replace("{o}", "")
        names = ", ".join(c[0] for c in cols)
        n = len(rows)
        cut = r.randint(1, n)
        extra = ""
        a = "a"
        accs = [x for x in k.accs(r, rows) if x.arrow]
        if not accs:
            return
        if r.random() < .2:
            rec.count("odd_args")
            for x in accs:
                self.odd(r, x)
        data = "WITH d(rn, %s) AS MATERIALIZED (VALUES %s)" % (names, ",".join("(%d,%s)" % (i, ",".join(x)) for i, x in enumerate(rows)))
        src = "SELECT %s a FROM (SELECT * FROM d ORDER BY rn) z" % agg
        if k.roll and k.pieces != "none" and r.random() < .3:
            rec.count("rollup")
            src = "SELECT %s a FROM (SELECT rn>=%d g, %s a FROM (SELECT * FROM d ORDER BY rn) z GROUP BY 1) y" % (k.roll.replace("{a}", "a"), cut, agg)
        if r.random() < .3:
            rec.count("round_trip")
            src = "SELECT a::text::%s a FROM (%s) x" % (k.ty, src)
        if r.random() < .15:
            rec.count("null_summary")
            src += " UNION ALL SELECT NULL::%s" % k.ty
        accs = [x for x in accs]
        # neighbours of the bucket, before and after
        if n >= 3 and r.random() < .6 and k.pieces == "time" and any("NULL::" + k.ty in x.fn for x in accs):
            rec.count("with_prev")
            i, j = sorted(r.sample(range(1, n), 2))
            data += ", w AS MATERIALIZED (SELECT (rn>=%d)::int+(rn>=%d)::int g, %s a FROM (SELECT * FROM d ORDER BY rn) z GROUP BY 1)" % (i, j, agg)
            t = [ts_parse(x[0].split("'")[1]) for x in rows]
            lo, hi = r.randint(t[i - 1] + 1, t[i]), r.randint(t[j - 1] + 1, t[j])
            win = "%s, %s, (SELECT a FROM w WHERE g=0)" % (ts_lit(lo), iv_lit(hi - lo))
            nx = ", (SELECT a FROM w WHERE g=2)"
            src = "SELECT a FROM w WHERE g=1"
            use = []
            for x in accs:
                if x.name.startswith("interpolated_"):
                    tail = nx if x.fn.count("NULL::" + k.ty) == 2 else ""
                    for f in ("fn", "arrow"):
                        e = getattr(x, f)
                        head, rest = e.split("'", 1)[0], e
                        # replace "start, length, NULL[, NULL]"
                        p = "NULL::%s" % k.ty + (", NULL::%s" % k.ty if tail else "")
                        q = e.index(p)
                        b = self.args_start(e[:q])
                        setattr(x, f, e[:b] + win + tail + e[q + len(p):])
                    use.append(x)
                elif r.random() < .3:
                    use.append(x)
            accs = use
        q = "%s, s AS MATERIALIZED (%s) SELECT %s FROM s" % (data, src, ", ".join("%s, %s" % (x.sql(a), x.arrow_sql(a)) for x in accs))
        got, e = self.err(rec, q)
        if e:
            # some accessor refuses: then each must refuse in both forms
            for x in accs:
                f1, e1 = self.err(rec, "%s, s AS MATERIALIZED (%s) SELECT %s FROM s" % (data, src, x.sql(a)))
                f2, e2 = self.err(rec, "%s, s AS MATERIALIZED (%s) SELECT %s FROM s" % (data, src, x.arrow_sql(a)))
                rec.count("refusals_compared")
                if bool(e1) != bool(e2):
                    rec.fail("arrow:error:%s:%s" % (k.ty, x.name), "%s: %s; %s: %s" % (x.fn, e1 or f1, x.arrow, e2 or f2))
                elif not e1 and f1 != f2:
                    rec.fail("arrow:%s:%s" % (k.ty, x.name), "%s = %s, but %s = %s" % (x.fn, f1, x.arrow, f2))
            return
        for g in got:
            for i, x in enumerate(accs):
                u, v = g[2 * i], g[2 * i + 1]
                nm = x.name
                for m in ("trim_to", "interpolate"):
                    if m + "({a}" in x.fn:
                        nm = m
                for m in ("extrapolated_delta", "extrapolated_rate"):
                    if m in x.fn:
                        nm = m
                rec.count("acc:" + nm.replace("(SELECT", "into_values").split(" ")[0])
                if u != v:
                    rec.fail("arrow:%s:%s" % (k.ty, nm), "%s = %s, but %s = %s" % (x.fn, u, x.arrow, v))
        rec.seen((k.name, got))
        if idx < 5:
            rec.sample = "%s = %s, %s = %s" % (accs[0].fn, got[0][0], accs[0].arrow, got[0][1])

    def odd(self, r, x):
        """unusual or wrong arguments: both forms must take, or refuse, them alike"""
        swap = [("'pop'", "'population'", "'sample'", "'samp'", "'s'", "'POP'", "'bogus'", "''"), ("'prometheus'", "'Prometheus'", "'none'", "''"),
                ("'second'", "'s'", "'ms'", "'hour'", "'us'", "'minute'", "'day'", "'Hours'", "'week'", "'parsec'", "''")]
        for fam in swap:
            for w in fam[:6]:
                if w in x.fn and "'%s'" % w.strip("'") == w:
                    new = r.choice(fam)
                    x.fn, x.arrow = x.fn.replace(w, new), x.arrow.replace(w, new)
                    return
        if x.name == "topn":
            new = r.choice(["0", "-1", "100", "2147483647"])
            x.fn = re.sub(r", \d+", ", " + new, x.fn)
            x.arrow = re.sub(r"topn\(\d+", "topn(" + new, x.arrow)
        elif x.name in ("state_at", "state_at_int", "live_at"):
            new = r.choice(["'infinity'::timestamptz", "'-infinity'::timestamptz", "'1500-01-01'::timestamptz"])
            x.fn = re.sub(r"'[^']*'::timestamptz", new, x.fn)
            x.arrow = re.sub(r"'[^']*'::timestamptz", new, x.arrow)
        elif x.name == "approx_percentile" or x.name == "approx_percentile_rank":
            new = r.choice(["'NaN'::float8", "'Infinity'::float8", "-0.5::float8", "1.5::float8"])
            x.fn = re.sub(r"'[^']*'::float8", new, x.fn)
            x.arrow = re.sub(r"'[^']*'::float8", new, x.arrow)
        elif x.name == "duration_in" and "interval" in x.fn:
            # lengths that no real range has: none, less than nothing, a microsecond
            new = r.choice(["'0'::interval", "'-1 microsecond'::interval", "'-1 day'::interval", "'1 microsecond'::interval", "'-2 microseconds'::interval", "'1000000 days'::interval"])
            for pat in (r"'[^']*'::interval", r"interval '[^']*'"):
                x.fn, x.arrow = re.sub(pat, new, x.fn), re.sub(pat, new, x.arrow)
        elif "trim_to(" in x.fn:
            t = re.findall(r"trim_to\(\{a\}, ('[^']*'::timestamptz), ('[^']*'::interval|\([^)]*\))", x.fn)
            if t:
                st, ln = t[0]
                new = r.choice(["%s" % st, "%s, NULL" % st, "%s, '2000-01-01'::timestamptz - %s" % (st, st)])
                x.fn = "live_ranges(trim_to({a}, %s))" % new
                x.arrow = "{a} -> trim_to(%s) -> live_ranges()" % new

    @staticmethod
    def args_start(s):
        """start of 'start, length, ' (two arguments) before the end of s"""
        i, seen = len(s), 0
        depth = 0
        inq = False
        while i > 0:
            i -= 1
            c = s[i]
            if c == "'":
                inq = not inq
            elif inq:
                continue
            elif c == ")":
                depth += 1
            elif c == "(" and depth:
                depth -= 1
            elif c == "(":
                return i + 1
            elif c == "," and depth == 0:
                seen += 1
                if seen == 3:
                    return i + 2
        return 0
