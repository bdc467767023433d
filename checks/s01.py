"""one-variable stats_agg and rollup against exact moments."""
import math
import re
from run import SqlWorker
from pg import *
import gen, orc
from orc import F

ID = "S01"
QUICK, THOROUGH = 4000, 60000
RULE = ("seeded columns of 0..80 doubles or bigints with NULLs, aggregated directly or per group and rolled up (one or two "
        "levels); some with infinities, NaN or overflowing magnitudes. A case counts when it has >= 2 values; distinct = distinct "
        "accessor result vectors")
ASSUMPTIONS = ["error bounds follow the conditioning of the inputs; higher moments are not compared when the variance is lost to rounding"]
MUST_OBSERVE = ["direct", "rolled_up", "bigint", "non_finite", "overflow_refused", "overflow_rolled_up", "empty", "moments_compared"]

ACC = ["num_vals(a)", "sum(a)", "average(a)", "variance(a)", "variance(a,'population')", "stddev(a)", "stddev(a,'pop')",
       "skewness(a)", "skewness(a,'population')", "kurtosis(a)", "kurtosis(a,'pop')", "variance(a,'SAMP')"]


def var_ok(g, v, inverse):
    return g is not None and g == g and g >= 0 and v.ok(g)


def sd_ok(g, v, inverse):
    """g: a standard deviation; v: the variance"""
    if g is None:
        return False
    if g != g:
        return False
    lo, hi = orc.fsqrt(max(F(0), v.v - v.e)), orc.fsqrt(v.v + v.e)
    s = F(1, 2 ** 44)
    return lo * (1 - s) - F(1e-160) <= F(g) <= hi * (1 + s) + F(1e-160)


def check1(got, xs, m=None, inverse=False):
    """got: the texts of ACC; xs: the non-NULL values (finite)"""
    bad = []
    n = len(xs)
    if int(got[0]) != n:
        return ["num_vals = %s, expected %d" % (got[0], n)]
    g = [f_parse(x) for x in got[1:]]
    if n == 0:
        if any(x is not None for x in g):
            bad.append("statistics of no values are not all NULL: %s" % got)
        return bad
    m = m or orc.Mom(xs)

    def num(i, ok, want):
        if not ok:
            bad.append("%s = %s, expected %s" % (ACC[i + 1], got[i + 1], want))
    num(0, m.sum.ok(g[0]), float(m.s))
    num(1, (m.sum / n).ok(g[1]), float(m.s / n))
    for i, samp in ((2, 1), (3, 0), (10, 1)):
        if n == 1 and samp:
            num(i, g[i] is None or g[i] != g[i], "undefined")
        else:
            num(i, var_ok(g[i], m.var(samp), inverse), float(m.var(samp).v))
    for i, samp in ((4, 1), (5, 0)):
        if n == 1 and samp:
            num(i, g[i] is None or g[i] != g[i], "undefined")
        else:
            num(i, sd_ok(g[i], m.var(samp), inverse), float(orc.fsqrt(m.var(samp).v)))
    for i, f, samp in ((6, m.skew, 1), (7, m.skew, 0), (8, m.kurt, 1), (9, m.kurt, 0)):
        if n == 1:
            num(i, g[i] is None or g[i] != g[i], "undefined")
            continue
        w = f(samp)
        if w is not None and w.e < 1 + abs(w.v):
            num(i, w.ok(g[i]), "%r +- %.1e" % (float(w.v), float(w.e)))
    return bad


def unrepresentable(xs, state):
    """did the state (its text form) take a moment that no double can hold for a number?  just below the range of the
    second moment the third and fourth are NaN, which claims nothing"""
    fs = [F(x) for x in xs]
    m = sum(fs) / len(fs)
    big, near = 18 * 10 ** 307, 1 - F(1, 2 ** 30)
    if max(sum((x - m) ** 2 for x in fs) * near, abs(sum(fs)) * near) > big:
        return True
    return sum((x - m) ** 4 for x in fs) * near > big and (re.search(r"inf", state) or re.search(r"s[xy]4:-?NaN", state) is None)


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        x = r.random()
        if x < .06:
            return self.nonfinite(r, rec)
        if x < .09:
            return self.overflow(r, rec)
        n = r.choice([0, 1, 2, 3, r.randint(4, 20), r.randint(4, 80)])
        big = r.random() < .25
        if big:
            k = r.choice([10, 1000, 2 ** 40, 2 ** 53])
            xs = [r.randint(-k, k) for _ in range(n)]
            rec.count("bigint")
        else:
            xs = gen.floats(r, n)
            if r.random() < .2:
                off = r.choice([1e3, -1e6, 1e9])
                xs = [v + off for v in xs]
        rows = [(r.randint(0, 6), v) for v in xs] + [(r.randint(0, 7), None) for _ in range(r.choice([0, 0, 1, 4]))]
        r.shuffle(rows)
        if not rows:
            rows = [(0, None)]
        lit = (lambda v: "NULL::bigint" if v is None else "%d::bigint" % v if v >= 0 else "(%d)::bigint" % v) if big else f_lit
        vals = rows_values([(str(g), lit(v)) for g, v in rows], 2)
        if r.random() < .5:
            q = "SELECT %s FROM (SELECT stats_agg(v) a FROM %s d(g,v)) s" % (",".join(ACC), vals)
            rec.count("direct")
        else:
            inner = "SELECT g, stats_agg(v) a FROM %s d(g,v) GROUP BY g" % vals
            if r.random() < .4:
                inner = "SELECT g%%2 g, rollup(a) a FROM (%s) q GROUP BY g%%2" % inner
            if r.random() < .3:
                inner += " UNION ALL SELECT 99, NULL"
            q = "SELECT %s FROM (SELECT %s(a) a FROM (%s) p) s" % (",".join(ACC), r.choice(["rollup", "rollup", "rolling"]), inner)
            rec.count("rolled_up")
        got = self.Q(rec, q)[0]
        if got[0] is None:
            rec.fail("stats_agg:null", "stats_agg of %d values is NULL" % n)
            return
        bad = check1(got, xs)
        rec.count("moments_compared", len(ACC))
        if n == 0:
            rec.count("empty")
        if bad:
            rec.fail("stats_agg:1d", "stats_agg of %d values: %s" % (n, "; ".join(bad[:5])))
        if n > 1:
            rec.seen(got)
        if idx < 4:
            rec.sample = "stats_agg%s of %d values -> %s" % ("(bigint)" if big else "", n, got[:4])

    def nonfinite(self, r, rec):
        xs = gen.floats(r, r.randint(0, 8), "small")
        for _ in range(r.randint(1, 2)):
            xs.insert(r.randint(0, len(xs)), r.choice([math.inf, -math.inf, math.nan]))
        rows = rows_values([(str(r.randint(0, 2)), f_lit(v)) for v in xs], 2)
        if r.random() < .5:
            q = "SELECT %s FROM (SELECT stats_agg(v) a FROM %s d(g,v)) s" % (",".join(ACC), rows)
        else:
            q = "SELECT %s FROM (SELECT rollup(a) a FROM (SELECT stats_agg(v) a FROM %s d(g,v) GROUP BY g) p) s" % (",".join(ACC), rows)
        got = self.Q(rec, q)[0]
        rec.count("non_finite")
        nan = any(v != v for v in xs) or (math.inf in xs and -math.inf in xs)
        want = math.nan if nan else (math.inf if math.inf in xs else -math.inf)
        for i in (1, 2):
            if not orc.same(f_parse(got[i]), want):
                rec.fail("stats_agg:nonfinite-sum", "%s over %s = %s, expected %r" % (ACC[i], xs, got[i], want))
        if int(got[0]) != len(xs):
            rec.fail("stats_agg:nonfinite-count", "num_vals over %s = %s" % (xs, got[0]))
        for i in range(3, len(ACC)):
            if got[i] is not None and got[i] != "NaN":
                rec.fail("stats_agg:nonfinite-moment", "%s over %s = %s, expected NaN" % (ACC[i], xs, got[i]))
        rec.seen(got)

    def overflow(self, r, rec):
        xs = [r.choice([1, -1]) * 10.0 ** r.uniform(80, 300) for _ in range(r.randint(2, 5))]
        rows = rows_values([(f_lit(v),) for v in xs], 1)
        src = "(SELECT stats_agg(v) a FROM %s d(v))" % rows
        if r.random() < .5:
            src = "(SELECT rollup(a) a FROM (SELECT stats_agg(v) a FROM %s WITH ORDINALITY d(v,o) GROUP BY o) p)" % ("unnest(ARRAY[%s])" % ",".join(f_lit(v) for v in xs))
            rec.count("overflow_rolled_up")
        res, e = self.err(rec, "SELECT sum(a), stddev(a), a::text FROM %s s" % src)
        if e is None:
            if unrepresentable(xs, res[0][2]):
                rec.fail("stats_agg:overflow", "moments of %s can not be represented, but there was no error: %s" % (xs, res))
        elif e.code != "22003":
            rec.fail("stats_agg:overflow-error", "unexpected error %s" % e)
        else:
            rec.count("overflow_refused")
