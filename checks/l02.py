"""gp_lttb: lttb that keeps both ends of every gap."""
from run import SqlWorker
from pg import *
import gen
from checks.l01 import triangles, curve, val_rel, OUT, parse_out

ID = "L02"
QUICK, THOROUGH = 1200, 20000
RULE = ("seeded series of 1..200 points with 0..n gaps of every size around the limit (given or derived from the resolution), single-point and two-point runs at either end, "
        "resolutions 3..2n, any input order with NULLs; each run between gaps judged by recomputed triangles; distinct = distinct outputs")
ASSUMPTIONS = ["finite values, distinct times", "of points whose triangles are equal up to rounding any may be chosen"]
MUST_OBSERVE = ["default_gap", "explicit_gap", "gaps", "runs_sampled", "runs_whole", "single_point_runs", "single_point_end", "more_gaps_than_points", "triangles", "exact_gap"]


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        n = r.choice([1, 2, 3, 4] + [r.randint(3, 30), r.randint(20, 200)] * 4)
        g = r.choice([1, 10, US, 60 * US, r.randint(1, 10 ** 9)])
        pg_ = r.choice([0, .05, .2, .5, 1])
        t, ts = gen.base_ts(r), []
        exact = 0
        for i in range(n):
            ts.append(t)
            d = r.choice([g + 1, 2 * g, r.randint(g + 1, 50 * g)]) if r.random() < pg_ else r.choice([g, r.randint(1, g), r.randint(1, g), r.randint(1, g)])
            exact += d == g
            t += d
        if n > 3 and r.random() < .2:
            ts[-1] += 50 * g
        if n > 3 and r.random() < .2:
            ts[0] -= 50 * g
        if exact:
            rec.count("exact_gap")
        pts = list(zip(ts, curve(r, n, ts)))
        k = max(3, r.choice([3, 4, 5, n // 2, n - 1, n, n + 1, 2 * n + 3] + [r.randint(3, max(3, n))] * 5))
        rows = list(pts)
        o = r.random()
        if o < .4:
            r.shuffle(rows)
        elif o < .5:
            rows.reverse()
        for _ in range(r.choice([0, 0, 2])):
            rows.insert(r.randint(0, len(rows)), (r.choice(ts), None))
        if r.random() < .7:
            rec.count("explicit_gap")
            lim = g
            fn = "toolkit_experimental.gp_lttb(t,v,%s,%d)" % (iv_lit(g), k)
        else:
            rec.count("default_gap")
            lim = (ts[-1] - ts[0]) // k
            fn = "toolkit_experimental.gp_lttb(t,v,%d)" % k
        got = self.Q(rec, "WITH s AS MATERIALIZED (SELECT %s a FROM %s) SELECT %s FROM s" % (fn, val_rel(rows), OUT % ts_lit(ts[0])))[0][0]
        out = parse_out(got, ts[0])
        runs, cur = [], [pts[0]]
        for p in pts[1:]:
            if p[0] - cur[-1][0] > lim:
                runs.append(cur)
                cur = []
            cur.append(p)
        runs.append(cur)
        rec.count("gaps", len(runs) - 1)
        rec.count("single_point_runs", sum(len(x) == 1 for x in runs))
        if len(runs) > 1 and len(runs[-1]) == 1:
            rec.count("single_point_end")
        need = sum(min(2, len(x)) for x in runs)
        if need > k:
            rec.count("more_gaps_than_points")
        bad = None
        if len(out) > max(k, need):
            bad = "%d points although %d were asked for and %d are ends of runs" % (len(out), k, need)
        pos = 0
        for x in runs:
            m = pos
            while m < len(out) and out[m][0] <= x[-1][0]:
                m += 1
            o, pos = out[pos:m], m
            if bad:
                break
            if not o or o[0] != x[0] or o[-1] != x[-1]:
                bad = "the run %s .. %s of %d points (%d gaps) became %s" % (x[0], x[-1], len(x), len(runs) - 1, o[:5])
            elif len(o) > len(x):
                bad = "the run of %d points from %s became %d points" % (len(x), x[0], len(o))
            elif len(o) == len(x):
                rec.count("runs_whole")
                if o != x:
                    bad = "the run %s became %s" % (x[:5], o[:5])
            else:
                rec.count("runs_sampled")
                bad = triangles(rec, x, o, len(o))
        if not bad and pos != len(out):
            bad = "extra points %s" % (out[pos:pos + 5],)
        # nothing is dropped when everything fits
        if not bad and len(runs) == 1 and len(out) != min(n, k):
            bad = "%d points without any gap, expected %d" % (len(out), min(n, k))
        if bad:
            rec.fail("gp_lttb", "%s of %d points, limit %d us: %s" % (fn, n, lim, bad))
        if n > 3:
            rec.seen(out)
        if idx < 4:
            rec.sample = "%s of %d points in %d runs -> %d points" % (fn, n, len(runs), len(out))
