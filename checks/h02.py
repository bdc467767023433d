"""heartbeat rollup, interpolate and trim_to: live time is the union, continued across window edges, inside the window."""
from run import SqlWorker
from pg import *
import gen
from checks.h01 import union, clip, merge, judge, probes_for, beats, cols

ID = "H02"
QUICK, THOROUGH = 3000, 30000
RULE = ("seeded 1..6 windows (adjacent buckets, overlapping, apart) with 1..40 heartbeats each (some with 1001..2300), combined by random nests (depth 1..4) of rollup in any order and grouping, "
        "interpolate and trim_to (function and arrow forms, empty and zero-length trims, by lag() over buckets) and rejected misuse; "
        "distinct = distinct (expression shape, window, ranges)")
ASSUMPTIONS = ["an aggregate trimmed at its end no longer knows its last heartbeat exactly and is not used as a predecessor or extended by rollup"]
MUST_OBSERVE = ["rollup", "rollup2", "interpolate", "trim", "trimmed_interpolate", "continued_across_edge", "empty_trim", "lag", "reject_trim", "reject_pred", "reject_len", "arrow", "batches",
                "live_probes", "dead_probes", "interpolated_uptime"]
NEG = -10 ** 30


class Node:
    def __init__(self, sql, lo, hi, rs, ext, exact=True, shape="b"):
        self.sql, self.lo, self.hi, self.rs, self.ext, self.exact, self.shape = sql, lo, hi, rs, ext, exact, shape


def dur_lit(r, d):
    return iv_lit(d)


class Worker(SqlWorker):
    def rollup(self, r, rec, ns, ln):
        lo, hi = min(n.lo for n in ns), max(n.hi for n in ns)
        rs = []
        for n in ns:
            x = list(n.rs)
            if x and n.ext > n.hi and hi > n.hi:
                x[-1] = (x[-1][0], min(n.ext, hi))
                rec.count("continued_across_edge")
            rs += x
        exact = all(n.exact for n in ns)
        ns = list(ns)
        r.shuffle(ns)
        if len(ns) > 2 and r.random() < .4:
            rec.count("rollup2")
            cut = r.randint(1, len(ns) - 1)
            f = lambda z: "(SELECT rollup(a) FROM (VALUES %s) v(a))" % ",".join("(%s)" % n.sql for n in z)
            sql = "(SELECT rollup(a) FROM (VALUES (%s),(%s)) v(a))" % (f(ns[:cut]), f(ns[cut:]))
        else:
            sql = "(SELECT rollup(a) FROM (VALUES %s%s) v(a))" % (",".join("(%s)" % n.sql for n in ns), ",(NULL::heartbeatagg)" if r.random() < .2 else "")
        rec.count("rollup")
        return Node(sql, lo, hi, merge(rs), max(n.ext for n in ns), exact, "r%d(%s)" % (len(ns), ns[0].shape))

    def interpolate(self, r, rec, a, p):
        rs, exact = list(a.rs), a.exact
        if p is not None and p.ext > a.lo:
            rs = merge(rs + [(a.lo, min(p.ext, a.hi))])
            rec.count("continued_across_edge")
            if p.ext > a.ext:
                exact = False
        elif not a.rs:
            exact = False
        rec.count("interpolate")
        if "t" in a.shape:
            rec.count("trimmed_interpolate")
        ps = p.sql if p is not None else "NULL::heartbeatagg"
        if r.random() < .5:
            rec.count("arrow")
            sql = "(%s -> interpolate(%s))" % (a.sql, ps)
        else:
            sql = "interpolate(%s, %s)" % (a.sql, ps)
        return Node(sql, a.lo, a.hi, [x for x in rs if x[1] > x[0]], a.ext, exact, "i(%s)" % a.shape)

    def trim(self, r, rec, a, ln):
        pts = [a.lo, a.hi] + [x for q in a.rs for x in q] + [x + d for q in a.rs for x in q for d in (-1, 1)] + [r.randint(a.lo, a.hi) for _ in range(3)]
        pts = [x for x in pts if a.lo <= x <= a.hi]
        s, e = sorted((r.choice(pts), r.choice(pts)))
        if r.random() < .3:
            s, e = a.lo, a.lo + r.randint(0, min(2 * ln, a.hi - a.lo))
        form = r.choice(["both", "both", "dur", "start", "none"])
        if form in ("dur", "none"):
            s = a.lo
        if form in ("start", "none"):
            e = a.hi
        rs = clip(a.rs, s, e)
        rs = [x for x in rs if x[1] > x[0]]
        ext, exact = NEG, a.exact and s < e
        if rs:
            o = [x for x in a.rs if x[1] > s and x[0] < e][-1]
            last = a.ext - ln if o[1] == a.hi else o[1] - ln
            if last > e:
                exact = False
            ext = min(last, e) + ln
        else:
            rec.count("empty_trim")
        rec.count("trim")
        if form == "both":
            if r.random() < .5:
                rec.count("arrow")
                sql = "(%s -> trim_to(%s, %s))" % (a.sql, ts_lit(s), iv_lit(e - s))
            else:
                sql = "trim_to(%s, %s, %s)" % (a.sql, ts_lit(s), iv_lit(e - s))
        elif form == "dur":
            sql = "trim_to(%s, duration => %s)" % (a.sql, iv_lit(e - s))
        elif form == "start":
            sql = ("(%s -> trim_to(%s))" if r.random() < .5 else "trim_to(%s, %s)") % (a.sql, ts_lit(s))
        else:
            sql = "trim_to(%s)" % a.sql
        return Node(sql, s, e, rs, ext, exact, "t(%s)" % a.shape)

    def case(self, r, idx, rec):
        ln = r.choice([1, 2, 10, 1000, US, 60 * US, 600 * US, r.randint(1, 10 ** 9)])
        k = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        t0 = gen.base_ts(r)
        kind = r.choice(["adjacent", "adjacent", "overlap", "apart"])
        w = ln + 1 + r.choice([0, 1, ln, r.randint(0, 20 * ln)])
        base, rows, t = [], [], t0
        for i in range(k):
            if kind != "adjacent":
                w = ln + 1 + r.choice([0, 1, ln, r.randint(0, 20 * ln)])
            lo, hi = t, t + w
            many = i == 0 and r.random() < .08
            hs = beats(r, r.randint(1001, 2300) if many else r.choice([1, 2, 3, r.randint(2, 40)]), lo, hi, ln)
            if r.random() < (.6 if many else .3):
                # (heartbeats are taken in batches of a thousand: which one holds the last must not matter)
                hs.insert(r.choice([0, len(hs), r.randint(0, len(hs))]), hi - 1 - r.randint(0, min(ln, w - 1)))
            if many:
                rec.count("batches")
            rows += ["(%d,%s,%s,%s)" % (i, ts_lit(lo), iv_lit(w), ts_lit(h)) for h in hs]
            base.append(Node("(SELECT a FROM s WHERE i=%d)" % i, lo, hi, union(hs, ln, lo, hi), max(hs) + ln))
            t = hi if kind == "adjacent" else hi + r.choice([0, 1, -1, r.randint(0, 3 * ln)]) if kind == "apart" else lo + r.randint(0, w)
        src = ("WITH s AS MATERIALIZED (SELECT i, lo, heartbeat_agg(h, lo, dur, %s) a FROM (VALUES %s) d(i,lo,dur,h) GROUP BY i, lo, dur) "
               % (iv_lit(ln), ",".join(rows)))
        if kind == "adjacent" and k > 1 and r.random() < .4:
            # the documented pattern
            rec.count("lag")
            probes = {i: probes_for(r, b.rs, b.lo, b.hi, 4) for i, b in enumerate(base)}
            order = "OVER (ORDER BY lo)"
            got = self.Q(rec, src + ", p AS (SELECT i, a, lag(a) %s q FROM s) SELECT %s, %s, %s, %s, %s FROM p ORDER BY i" % (
                order, cols("interpolate(a,q)", [b for b in []]), IVSEC % "interpolated_uptime(a,q)", IVSEC % "interpolated_downtime(a,q)",
                IVSEC % "a->interpolated_uptime(q)", IVSEC % "a->interpolated_downtime(q)"))
            rec.count("interpolated_uptime", len(got))
            for i, g in enumerate(got):
                b = base[i]
                m = self.interpolate(r, rec, b, base[i - 1] if i else None)
                bad = judge(rec, g[:6] + [""], m.rs, b.lo, b.hi, [])
                up = sum(y - x for x, y in m.rs)
                if [int(x) for x in g[7:]] != [up, b.hi - b.lo - up] * 2:
                    bad.append("interpolated_uptime, interpolated_downtime (function, arrow) %s, expected %d, %d" % (g[7:], up, b.hi - b.lo - up))
                if bad:
                    rec.fail("heartbeat:lag", "bucket %d: %s" % (i, "; ".join(bad[:3])))
                rec.seen((b.lo, b.hi, m.rs))
            return
        pool = list(base)
        want = []
        for _ in range(r.choice([1, 2, 3, 4])):
            op = r.choice(["r", "r", "i", "t", "i"])
            ok = [n for n in pool if n.exact and len(n.sql) < 6000]
            if op == "r" and ok:
                m = self.rollup(r, rec, r.sample(ok, r.randint(1, min(4, len(ok)))), ln)
            elif op == "i":
                cand = [n for n in pool if len(n.sql) < 6000 and any(p.hi <= n.lo for p in ok)] or base
                a = r.choice([n for n in cand if "t" in n.shape] or cand) if r.random() < .6 else r.choice(cand)
                ps = [p for p in ok if p.hi <= a.lo]
                m = self.interpolate(r, rec, a, r.choice(ps) if ps and r.random() < .9 else None)
            else:
                m = self.trim(r, rec, r.choice([n for n in pool if len(n.sql) < 6000] or base), ln)
            pool.append(m)
            want.append(m)
        want = want[-2:]
        probes = [probes_for(r, m.rs, m.lo, m.hi, 6) for m in want]
        got = self.Q(rec, src + " UNION ALL ".join("SELECT * FROM (SELECT %s FROM (SELECT %s a OFFSET 0) z) y" % (cols("a", p), m.sql) for m, p in zip(want, probes)))
        for g, m, p in zip(got, want, probes):
            if m.lo == m.hi:
                # how many empty ranges an empty window has is anybody's guess
                if g[2] != "0" or g[3] != "0":
                    rec.fail("heartbeat", "%s over an empty window: uptime %s, downtime %s" % (m.shape, g[2], g[3]))
                continue
            bad = judge(rec, g, m.rs, m.lo, m.hi, p)
            if bad:
                rec.fail("heartbeat", "%s of %d windows, liveness %d us: %s" % (m.shape, k, ln, "; ".join(bad[:3])))
            rec.seen((m.shape, m.lo, m.hi, m.rs))
            if idx < 4:
                rec.sample = "%s of %d %s windows -> %d live ranges" % (m.shape, k, kind, len(m.rs))
        if r.random() < .12:
            a = r.choice(base)
            s, d = r.choice([(a.lo - 1, 1), (a.lo, a.hi - a.lo + 1), (a.hi + 1, 0), (a.lo + 1, a.hi - a.lo), (a.hi, -1), (a.hi, 1)])
            if not (a.lo <= s <= s + d <= a.hi):
                rec.count("reject_trim")
                x, e = self.err(rec, src + "SELECT uptime(%s)" % (("(%s -> trim_to(%s, %s))" if r.random() < .5 else "trim_to(%s, %s, %s)") % (a.sql, ts_lit(s), iv_lit(d))))
                if e is None:
                    rec.fail("heartbeat:trim-outside", "trim_to(%s, %d us) accepted for [%s, %s)" % (ts_text(s), d, ts_text(a.lo), ts_text(a.hi)))
            rec.count("reject_pred")
            x, e = self.err(rec, src + "SELECT uptime(interpolate(%s,%s))" % (a.sql, a.sql))
            if e is None:
                rec.fail("heartbeat:pred-overlaps", "interpolate accepted an overlapping predecessor")
            rec.count("reject_len")
            x, e = self.err(rec, "SELECT rollup(a) FROM (SELECT heartbeat_agg(%(t)s,%(t)s,%(d)s,%(l)s) a UNION ALL SELECT heartbeat_agg(%(t)s,%(t)s,%(d)s,%(m)s)) x" % {
                "t": ts_lit(t0), "d": iv_lit(ln * 4 + 10), "l": iv_lit(ln), "m": iv_lit(ln + 1)})
            if e is None:
                rec.fail("heartbeat:liveness-differs", "rollup accepted different livenesses")
