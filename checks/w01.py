"""time_weight: average, integral, first/last against the exact area under the curve."""
import math
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, close

ID = "W01"
QUICK, THOROUGH = 4000, 60000
RULE = ("seeded series of 1..60 (ts,value) rows, LOCF and linear, shuffled, with NULLs and repeated timestamps; a case counts when "
        "it has >= 2 distinct timestamps; distinct = distinct result vectors")
ASSUMPTIONS = ["of rows with equal timestamps any one may be the one used"]
MUST_OBSERVE = ["locf_results", "linear_results", "units_seen", "null_rows", "infinite", "huge"]

UNITS = {"us": 1, "usec": 1, "microsecond": 1, "microseconds": 1, "millisecond": 1000, "ms": 1000, "msecs": 1000,
         "second": US, "sec": US, "S": US, "seconds": US, "minute": 60 * US, "min": 60 * US, "MINUTES": 60 * US,
         "hour": 3600 * US, "h": 3600 * US, "hours": 3600 * US}
METHODS = {"LOCF": ["LOCF", "locf", " Locf "], "Linear": ["Linear", "linear", "trapezoidal", "LINEAR"]}


def area(seq, method):
    """exact integral (value x microseconds) and the sum of the magnitudes that went into it"""
    s, m = F(0), F(0)
    for (t0, v0), (t1, v1) in zip(seq, seq[1:]):
        x = F(v0) * (t1 - t0) if method == "LOCF" else (F(v0) + F(v1)) / 2 * (t1 - t0)
        s += x
        m += (abs(F(v0)) + abs(F(v1))) * (t1 - t0)
    return s, m


def expect_bad(got, seq, method, unit):
    """got: average, integral, first_val, last_val, first_time, last_time"""
    bad = []
    s, m = area(seq, method)
    d = seq[-1][0] - seq[0][0]
    if not close(f_parse(got[0]), s / d if d else None, scale=m / d if d else 0):
        bad.append("average = %s, expected %s" % (got[0], float(s / d) if d else None))
    if not close(f_parse(got[1]), s / UNITS[unit], scale=m / UNITS[unit]):
        bad.append("integral(%s) = %s, expected %r" % (unit, got[1], float(s / UNITS[unit])))
    if f_parse(got[2]) != seq[0][1] or f_parse(got[3]) != seq[-1][1]:
        bad.append("first_val, last_val = %s, expected %r, %r" % (got[2:4], seq[0][1], seq[-1][1]))
    if ts_parse(got[4]) != seq[0][0] or ts_parse(got[5]) != seq[-1][0]:
        bad.append("first_time, last_time = %s, expected %s, %s" % (got[4:6], ts_text(seq[0][0]), ts_text(seq[-1][0])))
    return bad


def cols(a, unit):
    return "average(%s), integral(%s,%s), first_val(%s), last_val(%s), first_time(%s), last_time(%s)" % (
        a, a, s_lit(unit), a, a, a, a)


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        method = r.choice(["LOCF", "Linear"])
        n = gen.size(r)
        ts = gen.times(r, n)
        seq = list(zip(ts, gen.floats(r, n)))
        sp = r.random()
        if n > 1 and sp < .06:
            # infinite values: the area is infinite, unless both infinities (or a NaN) take part
            vs = r.choice([[math.inf], [-math.inf], [math.inf, -math.inf], [math.nan]])
            seq = [(t, r.choice(vs) if r.random() < .4 else v) for t, v in seq]
        elif sp < .1:
            seq = [(t, r.choice([1, -1]) * r.uniform(1e280, 1e288)) for t, v in seq]
            rec.count("huge")
        special = any(not math.isfinite(v) for t, v in seq)
        rows = list(seq)
        for _ in range(0 if special else r.choice([0, 0, 1, 2])):
            t, v = r.choice(seq)
            rows.append((t, v if r.random() < .3 else r.uniform(-5, 5)))
        seqs = None if special else orc.dedup_choices(rows, 64)
        for _ in range(r.choice([0, 0, 1, 2])):
            rows.append(r.choice([(None, 1.0), (r.choice(ts), None), (None, None)]))
            rec.count("null_rows")
        if r.random() < .7:
            r.shuffle(rows)
        unit = r.choice(sorted(UNITS))
        rec.count("units_seen")
        got = self.Q(rec, "SELECT %s FROM (SELECT time_weight(%s,t,v) a FROM %s d(t,v)) s"
                     % (cols("a", unit), s_lit(r.choice(METHODS[method])), rows_values([(ts_lit(t), f_lit(v)) for t, v in rows], 2)))[0]
        if got[2] is None:
            rec.fail("time_weight:null", "time_weight is NULL for %d points" % n)
            return
        rec.count("locf_results" if method == "LOCF" else "linear_results")
        if special:
            rec.count("infinite")
            # the last value has no weight under LOCF
            w = [v for t, v in (seq[:-1] if method == "LOCF" else seq) if not math.isfinite(v)]
            want = 0.0 if not w else math.nan if any(v != v for v in w) or len(set(w)) > 1 else w[0]
            for name, x in (("average", got[0]), ("integral", got[1])):
                x = f_parse(x)
                if not (x is not None and (x != x if want != want else x == want if w else math.isfinite(x))):
                    rec.fail("time_weight:infinite", "time_weight(%s) of %s...: %s = %s, expected %s" % (method, seq[:5], name, x, want if w else "a finite number"))
            return
        bads = [expect_bad(got, s, method, unit) for s in seqs]
        if all(bads):
            rec.fail("time_weight:" + method, "time_weight(%s) of %d points: %s" % (method, n, "; ".join(bads[0])))
        if n > 1:
            rec.seen(got)
        if idx < 3:
            rec.sample = "time_weight(%s) of %s -> average %s" % (method, rows[:5], got[0])
        if r.random() < .03:
            x = self.Q(rec, "SELECT time_weight(%s,t,v) IS NULL FROM (VALUES (NULL::timestamptz,1.0::float8),(%s,NULL)) d(t,v)"
                       % (s_lit(method), ts_lit(0)))[0][0]
            if x != "t":
                rec.fail("time_weight:only-nulls", "time_weight over rows that all have a NULL is not NULL")
