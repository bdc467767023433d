"""time_weight rollup over disjoint ranges, and interpolated_average / interpolated_integral over buckets."""
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, close
from checks import w01

ID = "W02"
QUICK, THOROUGH = 4000, 60000
RULE = ("(a) a seeded series cut into contiguous groups and rolled up, one or two levels, any order; (b) overlapping or "
        "mixed-method rollups; (c) a series cut into fixed or calendar buckets (some empty, some in a zone with daylight saving "
        "time) and interpolated with lag/lead. A case counts when it compared a number; distinct = distinct results")
ASSUMPTIONS = ["finite values"]
MUST_OBSERVE = ["rollups_checked", "overlaps_refused", "mixed_methods_refused", "interpolated_compared", "interpolated_conserved",
                "dst_buckets"]


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        x = r.random()
        if x < .4:
            self.rollup(r, idx, rec)
        elif x < .5:
            self.overlap(r, rec)
        else:
            self.interpolate(r, idx, rec)

    def rollup(self, r, idx, rec):
        method = r.choice(["LOCF", "Linear"])
        n = gen.size(r)
        seq = list(zip(gen.times(r, n), gen.floats(r, n)))
        groups = gen.split_contiguous(r, seq)
        rows = [(g, t, v) for g, part in enumerate(groups) for t, v in part]
        if r.random() < .2:
            rows.append((len(groups), None, 1.0))
        r.shuffle(rows)
        vals = rows_values([(str(g), ts_lit(t), f_lit(v)) for g, t, v in rows], 3)
        perm = list(range(len(groups) + 1))
        r.shuffle(perm)
        inner = "SELECT (ARRAY[%s])[g+1] o, g, time_weight('%s',t,v) a FROM %s d(g,t,v) GROUP BY g" % (
            ",".join(map(str, perm)), method, vals)
        if r.random() < .4:
            k = r.randint(1, 3)
            inner = "SELECT min(o) o, g/%d g, rollup(a ORDER BY o) a FROM (%s) q GROUP BY g/%d" % (k, inner, k)
        unit = r.choice(sorted(w01.UNITS))
        got = self.Q(rec, "SELECT %s FROM (SELECT rollup(a ORDER BY o) a FROM (%s) q) s" % (w01.cols("a", unit), inner))[0]
        if got[2] is None:
            rec.fail("rollup:null", "rollup of %d non-empty summaries is NULL" % len(groups))
            return
        bad = w01.expect_bad(got, seq, method, unit)
        if bad:
            rec.fail("rollup:" + method, "rollup of %d %s summaries (%d points): %s" % (len(groups), method, n, "; ".join(bad)))
        rec.count("rollups_checked")
        if len(groups) > 1:
            rec.seen(got)
        if idx < 3:
            rec.sample = "rollup of %d groups, %d points, %s -> %s" % (len(groups), n, method, got[:2])

    def overlap(self, r, rec):
        n = r.randint(4, 20)
        seq = list(zip(gen.times(r, n), gen.floats(r, n)))
        m1 = r.choice(["LOCF", "Linear"])
        if r.random() < .5:
            c = r.randint(1, n - 1)
            one, two, m2, want = seq[:c], seq[c:], "Linear" if m1 == "LOCF" else "LOCF", "MethodMismatch"
        else:
            a, b = sorted(r.sample(range(n), 2))
            one, two, m2, want = seq[:b + 1], seq[a:], m1, "OrderError"
        q = "SELECT rollup(a) FROM (%s) q" % " UNION ALL ".join(
            "SELECT time_weight('%s',t,v) a FROM %s d(t,v)" % (m, rows_values([(ts_lit(t), f_lit(v)) for t, v in p], 2))
            for m, p in r.sample([(m1, one), (m2, two)], 2))
        rows, e = self.err(rec, q)
        if e is None:
            rec.fail("rollup:%s-accepted" % want, "a rollup that can not be right (%s) did not fail" % want)
        else:
            rec.count("overlaps_refused" if want == "OrderError" else "mixed_methods_refused")

    def interpolate(self, r, idx, rec):
        method = r.choice(["LOCF", "Linear"])
        n = gen.size(r, 40)
        dst = r.random() < .15
        if dst:
            # days around a change of the clocks
            rec.count("dst_buckets")
            start = r.choice([(20 * 365 + 5 + 66) * 86400 * US, (20 * 365 + 5 + 304) * 86400 * US])
            width, ivl, trunc = 86400 * US, "'1 day'::interval", "date_trunc('day',t)"
            pool = range(start, start + 6 * width, 13 * 60 * US)
        elif r.random() < .15:
            start = r.randint(0, 3000) * 86400 * US
            width, ivl, trunc = 30 * 86400 * US, "'1 month'::interval", "date_trunc('month',t)"
            pool = range(start, start + 5 * width, 3601 * US)
        else:
            width = r.choice([1000, 10 * US, 3600 * US, 86400 * US, 7 * 60 * US])
            start = gen.base_ts(r) // width * width
            ivl, trunc = iv_lit(width), None
            pool = range(start, start + 8 * width, max(1, width // 400))
        ts = sorted(r.sample(pool, n))
        seq = list(zip(ts, gen.floats(r, n)))
        useprev, usenext = r.random() < .8, r.random() < .8
        P = "lag(a) OVER (ORDER BY b)" if useprev else "NULL"
        N = "lead(a) OVER (ORDER BY b)" if usenext else "NULL"
        unit = r.choice(sorted(w01.UNITS))
        vals = rows_values([((ts_lit(t // width * width) if trunc is None else "NULL::timestamptz"), ts_lit(t), f_lit(v))
                            for t, v in r.sample(seq, n)], 3)
        src = "SELECT %s b, t, v FROM %s d(b,t,v)" % (trunc or "b", vals)
        q = ("SELECT b, b+%s, interpolated_average(a,b,%s,%s,%s), interpolated_integral(a,b,%s,%s,%s,%s), first_time(a), last_time(a) "
             "FROM (SELECT b, time_weight('%s',t,v) a FROM (%s) q GROUP BY b) s ORDER BY b"
             % (ivl, ivl, P, N, ivl, P, N, s_lit(unit), method, src))
        if dst:
            self.conn.exec("SET timezone='America/New_York'")
            q = q.replace("SELECT b, b+", "SELECT b AT TIME ZONE 'UTC', (b+").replace("::interval, interpolated_average", \
                "::interval) AT TIME ZONE 'UTC', interpolated_average", 1).replace("first_time(a), last_time(a) ", \
                "first_time(a) AT TIME ZONE 'UTC', last_time(a) AT TIME ZONE 'UTC' ")
        try:
            got = self.Q(rec, q)
        finally:
            if dst:
                self.conn.exec("SET timezone='UTC'")
        if dst:
            got = [[x + "+00" if i in (0, 1, 4, 5) else x for i, x in enumerate(g)] for g in got]
        bounds = [(ts_parse(g[0]), ts_parse(g[1])) for g in got]
        if any(not lo < hi for lo, hi in bounds) or sum(1 for t in ts for lo, hi in bounds if lo <= t < hi) != n:
            raise RuntimeError("the buckets do not partition the points: %s" % got[:3])
        total, tmag = F(0), F(0)
        for i, (lo, hi) in enumerate(bounds):
            j0 = next(k for k in range(n) if ts[k] >= lo)
            j1 = max(k for k in range(n) if ts[k] < hi)
            part = seq[j0:j1 + 1]
            if useprev and i > 0 and ts[j0] > lo:
                p = seq[j0 - 1]
                part = [(lo, p[1] if method == "LOCF" else orc.interp(p, seq[j0], lo))] + part
            if usenext and i + 1 < len(bounds):
                nx = seq[j1 + 1]
                part = part + [(hi, part[-1][1] if method == "LOCF" else orc.interp(seq[j1], nx, hi))]
            elif method == "LOCF":
                part = part + [(hi, part[-1][1])]
            s, m = w01.area(part, method)
            d = part[-1][0] - part[0][0]
            rec.count("interpolated_compared")
            total += F(f_parse(got[i][3])) * w01.UNITS[unit]
            tmag += m
            if not close(f_parse(got[i][2]), s / d if d else None, scale=m / d if d else 0):
                rec.fail("interpolated_average:" + method, "bucket %d of %d: interpolated_average = %s, expected %s (prev %s next %s)"
                         % (i, len(bounds), got[i][2], float(s / d) if d else None, useprev, usenext))
                return
            if not close(f_parse(got[i][3]), s / w01.UNITS[unit], scale=m / w01.UNITS[unit]):
                rec.fail("interpolated_integral:" + method, "bucket %d of %d: interpolated_integral = %s, expected %r"
                         % (i, len(bounds), got[i][3], float(s / w01.UNITS[unit])))
                return
        if useprev and usenext and len(bounds) > 1 and all(a[1] == b[0] for a, b in zip(bounds, bounds[1:])):
            whole = seq + ([(bounds[-1][1], seq[-1][1])] if method == "LOCF" else [])
            s, m = w01.area(whole, method)
            if abs(total - s) > F(1e-9) * len(bounds) * (m + tmag):
                rec.fail("interpolated:conservation", "the buckets' integrals sum to %r, the whole is %r" % (float(total), float(s)))
            rec.count("interpolated_conserved")
        rec.seen(got)
        if idx < 6:
            rec.sample = "%d buckets (%s) interpolated, %s, prev %s next %s" % (len(bounds), ivl, method, useprev, usenext)
