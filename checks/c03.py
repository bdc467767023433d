"""counter/gauge bounds: prometheus extrapolation, with_bounds, rollup of bounds, interpolated_delta/rate."""
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, close

ID = "C03"
QUICK, THOROUGH = 3000, 50000
RULE = ("(a) seeded series with bounds given at creation, by with_bounds or per rolled-up part in all four inclusivity forms; "
        "(b) seeded series cut into time buckets with empty buckets, interpolated with lag/lead neighbours. A case counts when it "
        "compared >= 1 number; distinct = distinct result vectors")
ASSUMPTIONS = ["finite values", "extrapolation is not compared within 1e-9 relative of one of its branch points"]
MUST_OBSERVE = ["extrapolated_compared", "interpolated_compared", "invalid_bounds_refused", "unbounded_refused", "interpolated_conserved", "resets_between_buckets"]


def rng_lit(r, lo, hi):
    """a tstzrange literal that denotes [lo, hi)"""
    li, ui = r.random() < .6, r.random() < .3
    a, b = (lo if li else lo - 1), (hi - 1 if ui else hi)
    return "'%s%s,%s%s'::tstzrange" % ("[" if li else "(", '"%s"' % ts_text(a), '"%s"' % ts_text(b), "]" if ui else ")")


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        if r.random() < .5:
            self.extrapolate(r, idx, rec)
        else:
            self.interpolate(r, idx, rec)

    def extrapolate(self, r, idx, rec):
        counter = r.random() < .65
        fn = "counter_agg" if counter else "gauge_agg"
        m = "'prometheus'" if r.random() < .7 else "'Prometheus'"
        arg = ",%s" % m if counter else ""
        n = gen.size(r)
        seq = list(zip(gen.times(r, n), gen.counter_vals(r, n)))
        span = max(seq[-1][0] - seq[0][0], 1)
        lo = seq[0][0] - r.choice([0, 0, r.randint(0, span // n + 1), r.randint(0, span), 10 ** 7])
        hi = seq[-1][0] + 1 + r.choice([0, r.randint(0, span // n + 1), r.randint(0, span), 999, 1000, 10 ** 7])
        vals = rows_values([(ts_lit(t), f_lit(v)) for t, v in r.sample(seq, n)], 2)
        mode = r.choice(["create", "with", "arrow", "rollup"])
        if r.random() < .12:
            # bounds that do not contain the data
            x = r.random()
            if r.random() < .3:
                # an extent without an end can not be extrapolated to, though the bounds themselves are fine
                b = r.choice(["tstzrange(%s,NULL)" % ts_lit(lo), "tstzrange(NULL,%s)" % ts_lit(hi), "tstzrange(NULL,NULL)", "'empty'::tstzrange"])
                a = r.choice(["%s(t,v,%s)", "with_bounds(%s(t,v),%s)", "%s(t,v) -> with_bounds(%s)"]) % (fn, b)
                q = "SELECT extrapolated_%s(%s%s) FROM %s d(t,v)" % (r.choice(["delta", "rate"]), a, arg, vals)
                rows, e = self.err(rec, q)
                if e is None and rows[0][0] is not None:
                    rec.fail(fn + ":unbounded", "extrapolated to bounds %s: %s" % (b, rows))
                elif e is not None and "bounds" not in e.msg.lower():
                    rec.fail(fn + ":unbounded-error", "unexpected error for bounds %s: %s" % (b, e))
                else:
                    rec.count("unbounded_refused")
                return
            blo, bhi = (seq[0][0] + 1, hi + 10) if x < .5 else (lo, seq[-1][0])
            if bhi < blo:
                return
            b = "tstzrange(%s,%s)" % (ts_lit(blo), ts_lit(bhi))
            if r.random() < .5:
                q = "SELECT %s(t,v,%s) FROM %s d(t,v)" % (fn, b, vals)
            else:
                q = "SELECT extrapolated_delta(with_bounds(%s(t,v),%s)%s) FROM %s d(t,v)" % (fn, b, arg, vals)
            rows, e = self.err(rec, q)
            if e is None and not (rows and blo == bhi):
                rec.fail(fn + ":invalid-bounds", "bounds that do not contain the data were accepted: %s" % rows)
            elif e is not None and "bounds" not in e.msg.lower() and "BoundsInvalid" not in e.msg:
                rec.fail(fn + ":invalid-bounds-error", "unexpected error for invalid bounds: %s" % e)
            else:
                rec.count("invalid_bounds_refused")
            return
        b = rng_lit(r, lo, hi)
        if mode == "create":
            a = "(SELECT %s(t,v,%s) a FROM %s d(t,v)) s" % (fn, b, vals)
        elif mode == "with":
            a = "(SELECT with_bounds(%s(t,v),%s) a FROM %s d(t,v)) s" % (fn, b, vals)
        elif mode == "arrow":
            a = "(SELECT %s(t,v) -> with_bounds(%s) a FROM %s d(t,v)) s" % (fn, b, vals)
        else:
            parts = gen.split_contiguous(r, seq)
            subs = []
            for i, p in enumerate(parts):
                plo = lo if i == 0 else r.randint(p[0][0] - 5, p[0][0])
                phi = hi if i == len(parts) - 1 else p[-1][0] + 1 + r.randint(0, 5)
                plo = max(plo, lo)
                phi = min(phi, hi)
                bb = ",%s" % rng_lit(r, plo, phi) if i in (0, len(parts) - 1) or r.random() < .7 else ""
                subs.append("SELECT %s(t,v%s) a FROM %s d(t,v)" % (fn, bb, rows_values([(ts_lit(t), f_lit(v)) for t, v in p], 2)))
            r.shuffle(subs)
            a = "(SELECT rollup(a) a FROM (%s) q) s" % " UNION ALL ".join(subs)
        got = self.Q(rec, "SELECT extrapolated_delta(a%s), extrapolated_rate(a%s), delta(a) FROM %s" % (arg, arg, a))[0]
        mt = orc.Metric(seq, counter)
        wd, wr = mt.prom_delta(lo, hi), mt.prom_rate(lo, hi)
        rec.count("extrapolated_compared")
        rec.seen(got)
        sc = mt.mag
        if wd is None:
            ok = got[0] is None and got[1] is None
        elif mt.prom_fuzzy:
            rec.count("branch_point_skipped")
            return
        else:
            k = abs(wd / mt.delta()) if mt.delta() else F(1)
            ok = close(f_parse(got[0]), wd, scale=sc * k)
            if wr is None:
                ok = ok and got[1] is None
            else:
                ok = ok and close(f_parse(got[1]), wr, scale=sc * k * US / (hi - lo - 1000))
        if not close(f_parse(got[2]), mt.delta(), scale=sc):
            rec.fail(fn + ":bounds-change-delta", "delta = %s with bounds, expected %r" % (got[2], float(mt.delta())))
        if not ok:
            rec.fail(fn + ":extrapolated", "extrapolated delta, rate = %s, expected %s, %s (%s; %d points, bounds [%s, %s))"
                     % (got[:2], wd and float(wd), wr and float(wr), mode, n, ts_text(lo), ts_text(hi)))
        if idx < 4:
            rec.sample = "%s with bounds by %s: extrapolated %s" % (fn, mode, got[:2])

    def interpolate(self, r, idx, rec):
        counter = r.random() < .65
        fn = "counter_agg" if counter else "gauge_agg"
        n = gen.size(r, 40)
        width = r.choice([1000, 10 * US, 3600 * US, 86400 * US, 7 * 60 * US])
        base = gen.base_ts(r) // width * width
        ts = sorted(r.sample(range(base, base + 8 * width, max(1, width // 500)), n))
        seq = list(zip(ts, gen.counter_vals(r, n, nonneg=counter)))   # a counter counts up from zero
        # reset-adjusted running values, linear between the points
        adj, off, prev = [], F(0), None
        for t, v in seq:
            if counter and prev is not None and v < prev:
                off += F(prev)
            adj.append((t, F(v) + off))
            prev = v
        mag = max(abs(y) for _, y in adj) + max(abs(F(v)) for _, v in seq)

        def A(x):
            for (t0, y0), (t1, y1) in zip(adj, adj[1:]):
                if t0 <= x <= t1:
                    return y0 + (y1 - y0) * F(x - t0, t1 - t0)
            return adj[0][1] if x <= adj[0][0] else adj[-1][1]

        buckets = {}
        for t, v in seq:
            buckets.setdefault(t // width * width, []).append((t, v))
        bs = sorted(buckets)
        useprev, usenext = r.random() < .8, r.random() < .8
        P = "lag(a) OVER (ORDER BY b)" if useprev else "NULL"
        N = "lead(a) OVER (ORDER BY b)" if usenext else "NULL"
        vals = rows_values([(ts_lit(t // width * width), ts_lit(t), f_lit(v)) for t, v in r.sample(seq, n)], 3)
        q = ("SELECT interpolated_delta(a,b,%s,%s,%s), interpolated_rate(a,b,%s,%s,%s) FROM (SELECT b, %s(t,v) a FROM %s d(b,t,v) GROUP BY b) s ORDER BY b"
             % (iv_lit(width), P, N, iv_lit(width), P, N, fn, vals))
        got = self.Q(rec, q)
        if len(got) != len(bs):
            rec.fail(fn + ":interp-rows", "expected %d buckets, got %d" % (len(bs), len(got)))
            return
        total = F(0)
        for i, b in enumerate(bs):
            first, last = buckets[b][0], buckets[b][-1]
            x0 = b if useprev and i > 0 and first[0] > b else first[0]
            x1 = b + width if usenext and i + 1 < len(bs) else last[0]
            wd = A(x1) - A(x0)
            total += F(f_parse(got[i][0]))
            wr = wd / F(x1 - x0, US) if x1 > x0 else None
            rec.count("interpolated_compared")
            if not close(f_parse(got[i][0]), wd, scale=mag):
                rec.fail(fn + ":interpolated_delta", "interpolated_delta of bucket %d = %s, expected %r (prev %s next %s)"
                         % (i, got[i][0], float(wd), useprev, usenext))
                return
            if not close(f_parse(got[i][1]), wr, scale=mag * US / max(1, x1 - x0)):
                rec.fail(fn + ":interpolated_rate", "interpolated_rate of bucket %d = %s, expected %s" % (i, got[i][1], wr and float(wr)))
                return
            if i and first[1] < buckets[bs[i - 1]][-1][1]:
                rec.count("resets_between_buckets")
        if useprev and usenext and all(b - a == width for a, b in zip(bs, bs[1:])) and len(bs) > 1:
            # nothing is lost or counted twice between adjacent buckets
            if abs(total - (adj[-1][1] - adj[0][1])) > mag * F(1e-9) * len(bs):
                rec.fail(fn + ":interp-conservation", "interpolated deltas sum to %r, the series changes by %r"
                         % (float(total), float(adj[-1][1] - adj[0][1])))
            rec.count("interpolated_conserved")
        rec.seen(got)
        if idx < 6:
            rec.sample = "%d buckets of %s interpolated (prev %s, next %s)" % (len(bs), fn, useprev, usenext)
