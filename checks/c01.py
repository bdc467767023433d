"""counter_agg / gauge_agg against the exact reference."""
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, close, EPS

ID = "C01"
QUICK, THOROUGH = 4000, 60000
RULE = ("seeded series of 1..60 (ts,value) rows with NULLs, duplicates and shuffled input; a case counts when it holds "
        ">= 2 distinct timestamps; distinct = distinct accessor result vectors")
ASSUMPTIONS = ["finite values", "of rows with equal timestamps any one may be the one used"]
MUST_OBSERVE = ["counter_results", "gauge_results", "resets_seen", "changes_seen", "accessor_values"]

ACC = ["delta(a)", "rate(a)", "time_delta(a)", "irate_left(a)", "irate_right(a)", "idelta_left(a)", "idelta_right(a)",
       "num_elements(a)", "num_changes(a)", "slope(a)", "intercept(a)", "corr(a)"]


def check_metric(rec, got, seqs, counter, what):
    """got: dict accessor->text; passes when one of the candidate sequences explains every value"""
    reasons = []
    for seq in seqs:
        bad = explain(got, orc.Metric(seq, counter))
        if not bad:
            return True
        reasons.append("; ".join(bad[:6]))
    rec.fail(what, "%s disagrees with the reference on %d points: %s" % (what, len(seqs[0]), reasons[0]))
    return False


def explain(got, m):
    bad = []

    def num(k, want, scale=0.0, rel=1e-9):
        g = f_parse(got[k])
        if not close(g, want, rel=rel, scale=scale):
            bad.append("%s = %s, expected %s" % (k, got[k], None if want is None else float(want)))

    td = m.time_delta()
    num("delta(a)", m.delta(), m.mag)
    num("time_delta(a)", td)
    num("rate(a)", m.rate(), m.mag / td if td else 0)
    num("idelta_left(a)", m.idelta_left(), m.mag)
    num("idelta_right(a)", m.idelta_right(), m.mag)
    if m.n > 1:
        num("irate_left(a)", m.irate_left(), m.mag * US / (m.seq[1][0] - m.seq[0][0]))
        num("irate_right(a)", m.irate_right(), m.mag * US / (m.seq[-1][0] - m.seq[-2][0]))
    else:
        num("irate_left(a)", None)
        num("irate_right(a)", None)
    for k, want in (("num_elements(a)", m.n), ("num_changes(a)", m.changes)):
        if int(got[k]) != want:
            bad.append("%s = %s, expected %d" % (k, got[k], want))
    if "num_resets(a)" in got and int(got["num_resets(a)"]) != m.resets:
        bad.append("num_resets = %s, expected %d" % (got["num_resets(a)"], m.resets))
    if "first_val(a)" in got:
        for k, want in (("first_val(a)", m.first[1]), ("last_val(a)", m.last[1])):
            if f_parse(got[k]) != want:
                bad.append("%s = %s, expected %r" % (k, got[k], want))
        for k, want in (("first_time(a)", m.first[0]), ("last_time(a)", m.last[0])):
            if ts_parse(got[k]) != want:
                bad.append("%s = %s, expected %s" % (k, got[k], ts_text(want)))
    # regression of the reset-adjusted value on time in seconds
    mo = orc.Moments2(m.adj)
    if m.n < 2:
        for k in ("slope(a)", "intercept(a)", "corr(a)"):
            if got[k] is not None:
                bad.append("%s = %s for a single element, expected NULL" % (k, got[k]))
        return bad
    sdx = orc.fsqrt(mo.sxx / m.n)
    sdy = orc.fsqrt(mo.syy / m.n)
    # conditioning: coordinates are rounded at EPS*|x| before being differenced
    cx = 64 * m.n * EPS * float(mo.maxx / sdx)
    cy = 64 * m.n * EPS * float(mo.maxy / sdy) if sdy else 1.0
    if cx < 1e-4:
        rel = 1e-9 + 8 * cx
        ss = sdy / sdx
        noise = F(64 * m.n * EPS) * mo.maxy / sdx
        g = f_parse(got["slope(a)"])
        if not close(g, mo.slope(), rel=rel, scale=ss, abs_=noise):
            bad.append("slope = %s, expected %r" % (got["slope(a)"], float(mo.slope())))
        g = f_parse(got["intercept(a)"])
        isc = mo.maxy + abs(mo.slope()) * mo.maxx + ss * mo.maxx
        if not close(g, mo.intercept(), rel=rel, scale=isc, abs_=noise * mo.maxx):
            bad.append("intercept = %s, expected %r" % (got["intercept(a)"], float(mo.intercept())))
        if cy < 1e-4:
            g = f_parse(got["corr(a)"])
            if not close(g, mo.corr(), rel=1e-9 + 8 * (cx + cy), scale=1):
                bad.append("corr = %s, expected %r" % (got["corr(a)"], float(mo.corr())))
        if "counter_zero_time(a)" in got and got["counter_zero_time(a)"] is not None and mo.slope():
            # x intercept in microseconds
            z = -mo.intercept() / mo.slope() * US
            if abs(z) < 2 * 10 ** 17:
                cond = isc / abs(mo.slope()) * US
                g = ts_parse(got["counter_zero_time(a)"])
                if isinstance(g, int) and not close(float(g), z, rel=0, abs_=F(2) + cond * F(rel + cy * 8) + abs(z) * F(rel)):
                    bad.append("counter_zero_time = %s, expected %s" % (got["counter_zero_time(a)"], ts_text(int(z))))
    return bad


CNT = ACC + ["num_resets(a)", "first_val(a)", "last_val(a)", "first_time(a)", "last_time(a)", "counter_zero_time(a)"]


def rows_sql(rows):
    return rows_values([(ts_lit(t), f_lit(v)) for t, v in rows], 2)


def make_rows(r, n=None):
    n = n or gen.size(r)
    ts = gen.times(r, n)
    seq = list(zip(ts, gen.counter_vals(r, n)))
    rows = list(seq)
    for _ in range(r.choice([0, 0, 1, 2])):
        t, v = r.choice(seq)
        rows.append((t, v if r.random() < .3 else r.choice(gen.counter_vals(r, 3))))
    clean = list(rows)
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        rows.append(r.choice([(None, 1.0), (r.choice(ts), None), (None, None)]))
    if r.random() < .7:
        r.shuffle(rows)
    return rows, clean


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        rows, clean = make_rows(r)
        seqs = orc.dedup_choices(clean, 64)
        counter = r.random() < .65
        fn, acc = ("counter_agg", CNT) if counter else ("gauge_agg", ACC + ["gauge_zero_time(a)"])
        try:
            got = self.Q(rec, "SELECT %s FROM (SELECT %s(t,v) a FROM %s d(t,v)) s" % (",".join(acc), fn, rows_sql(rows)))[0]
        except PgError as e:
            if "timestamp out of range" in e.msg and "zero_time" in acc[-1]:
                rec.count("zero_time_out_of_range")
                return
            raise
        d = dict(zip(acc, got))
        if d["delta(a)"] is None:
            rec.fail(fn + ":null", "%s returned NULL for %d points" % (fn, len(clean)))
            return
        rec.count("counter_results" if counter else "gauge_results")
        rec.count("accessor_values", len(acc))
        check_metric(rec, d, seqs, counter, fn)
        if counter:
            rec.count("resets_seen", int(d["num_resets(a)"]))
        rec.count("changes_seen", int(d["num_changes(a)"]))
        if len(seqs[0]) >= 2:
            rec.seen(got)
        if idx < 3:
            rec.sample = "%s over %s -> delta=%s" % (fn, rows[:6], d["delta(a)"])
        # nothing but NULLs -> no aggregate
        if r.random() < .05:
            x = self.Q(rec, "SELECT %s(t,v) IS NULL FROM (VALUES (NULL::timestamptz,1.0::float8),(%s,NULL)) d(t,v)"
                       % (fn, ts_lit(0)))[0][0]
            if x != "t":
                rec.fail(fn + ":only-nulls", "%s over rows that all have a NULL is not NULL" % fn)
