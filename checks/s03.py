"""stats_agg and rolling as window aggregates: the inverse transition must give the frame's own statistics."""
import math
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, EPS
from checks import s01, s02

ID = "S03"
QUICK, THOROUGH = 1500, 25000
RULE = ("seeded columns of 2..40 rows with NULLs, outliers and non-finite values seen through a moving ROWS frame (both ends move), "
        "with stats_agg (double, bigint, pairs), stats_agg_tf and rolling over summaries; every frame is compared with the "
        "frame's exact moments. A case counts when >= 2 different frames were compared; distinct = distinct result tables")
ASSUMPTIONS = ["rounding error may be as large as that of the values the frame has passed over"]
MUST_OBSERVE = ["frames_compared", "frames_after_removal", "nonfinite_left_frame", "outlier_left_frame", "rolling", "stats_agg", "bigint", "pairs"]


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        n = r.randint(2, 40)
        kind = r.choice(["stats_agg", "stats_agg", "bigint", "tf", "pairs", "rolling", "rolling", "rolling2"])
        rec.count(kind)
        lo = r.randint(-6, 2)
        hi = lo + r.randint(0, 6)
        frame = "ROWS BETWEEN %s AND %s" % tuple(
            "CURRENT ROW" if k == 0 else "%d %s" % (abs(k), "PRECEDING" if k < 0 else "FOLLOWING") for k in (lo, hi))
        two = kind in ("pairs", "rolling2")
        style = r.choice(["small", "int", "unit", "ties", "wide"])
        special = r.random()
        pts = []
        for i in range(n):
            def val():
                x = r.random()
                if kind == "bigint":
                    return None if x < .1 else r.choice([r.randint(-50, 50), r.randint(-50, 50), 2 ** 40 if special < .3 else 7])
                if x < .1:
                    return None
                if x < .16 and special < .3:
                    return r.choice([1e8, -1e8, 1e7])
                if x < .16 and special > .75:
                    return r.choice([math.inf, -math.inf, math.nan])
                return gen.floats(r, 1, style)[0]
            v = val()
            if two:
                w = val()
                pts.append([None if v is None or w is None else (v, w)])
            elif kind == "rolling":
                pts.append([v] + [val() for _ in range(r.choice([0, 0, 1, 3]))])
            else:
                pts.append([v])
        if kind == "rolling2":
            for p in pts:
                for _ in range(r.choice([0, 0, 1, 3])):
                    p.append((gen.floats(r, 1, style)[0], gen.floats(r, 1, style)[0]))
        lit = (lambda v: "NULL::bigint" if v is None else "'%d'::bigint" % v) if kind == "bigint" else f_lit
        rows = []
        for i, p in enumerate(pts):
            for v in p:
                rows.append((str(i), f_lit(v and v[0]), f_lit(v and v[1])) if two else (str(i), lit(v)))
        vals = rows_values(rows, 3)
        acc = s02.ACC if two else s01.ACC
        nullsum = "NULL" if r.random() < .5 else "a"
        if kind == "rolling":
            src = "SELECT i, rolling(a) OVER w a FROM (SELECT i, stats_agg(v) a FROM %s d(i,v) GROUP BY i) q WINDOW w AS (ORDER BY i %s)" % (vals, frame)
        elif kind == "rolling2":
            src = "SELECT i, rolling(a) OVER w a FROM (SELECT i, stats_agg(y,x) a FROM %s d(i,y,x) GROUP BY i) q WINDOW w AS (ORDER BY i %s)" % (vals, frame)
        elif kind == "pairs":
            src = "SELECT i, stats_agg(y,x) OVER (ORDER BY i %s) a FROM %s d(i,y,x)" % (frame, vals)
        else:
            fn = "toolkit_experimental.stats_agg_tf" if kind == "tf" else "stats_agg"
            src = "SELECT i, %s(v) OVER (ORDER BY i %s) a FROM %s d(i,v)" % (fn, frame, vals)
        got = self.Q(rec, "SELECT %s FROM (%s) s ORDER BY i" % (",".join(acc), src))
        eps = EPS if kind.startswith("rolling") or kind == "x" else 2.0 ** -90
        fins = []
        for i in range(n):
            a, b = max(0, i + lo), min(n - 1, i + hi)
            ws = [v for p in pts[a:b + 1] for v in p if v is not None] if b >= a else []
            seen = [v for p in pts[:max(b + 1, 0)] for v in p if v is not None]
            rec.count("frames_compared")
            if a > 0 and b >= a:
                rec.count("frames_after_removal")
            g = got[i]
            if g[0] is None:
                # an empty frame has no aggregate
                if b >= a and ws:
                    rec.fail(kind + ":null", "frame %d with %d values has no statistics" % (i, len(ws)))
                    return
                continue
            if two:
                fin = all(orc.isfin(z) for v in ws for z in v)
            else:
                fin = all(orc.isfin(v) for v in ws)
            nf_gone = any(not orc.isfin(z) for v in seen for z in (v if two else (v,))) and fin
            if nf_gone:
                rec.count("nonfinite_left_frame")
            if not fin:
                ok = int(g[0]) == len(ws)
                if not ok:
                    rec.fail(kind + ":nonfinite-count", "frame %d: num_vals %s, expected %d" % (i, g[0], len(ws)))
                if not two:
                    nan = any(v != v for v in ws) or (math.inf in ws and -math.inf in ws)
                    want = math.nan if nan else (math.inf if math.inf in ws else -math.inf)
                    if not orc.same(f_parse(g[1]), want):
                        if eps < EPS and g[1] == "NaN" and not nan:
                            rec.fail("moving:infinite-sum-is-nan", "the sum of a moving frame that holds an infinity is NaN, not %r" % want)
                        else:
                            rec.fail(kind + ":nonfinite-sum", "frame %d: sum %s, expected %r" % (i, g[1], want))
                continue
            fs = [v for v in seen if all(orc.isfin(z) for z in (v if two else (v,)))]
            if not ws:
                bad = [] if int(g[0]) == 0 else ["num_vals = %s of an empty frame" % g[0]]
            elif two:
                mx = orc.Mom([v[1] for v in ws], [v[1] for v in fs], eps, 4 * n)
                my = orc.Mom([v[0] for v in ws], [v[0] for v in fs], eps, 4 * n)
                bad = s02.check2(g, ws, mx, my, inverse=True)
            else:
                bad = s01.check1(g, ws, orc.Mom(ws, fs, eps, 4 * n), inverse=True)
            if fs and ws and not two and max(abs(v) for v in fs) > 1e6 > 1e3 > max(abs(v) for v in ws):
                rec.count("outlier_left_frame")
            if bad:
                rec.fail(kind + (":after-nonfinite" if nf_gone else ":frame"), "frame %d [%d..%d] of %d rows (%s), values %s: %s"
                         % (i, a, b, n, frame, ws[:8], "; ".join(bad[:4])))
                return
        rec.seen(got)
        if idx < 5:
            rec.sample = "%s over %d rows, %s" % (kind, n, frame)
