"""state_agg rollup and interpolation: consecutive pieces behave as the whole series."""
from run import SqlWorker
from pg import *
from parts import Parts
import gen
from checks.a01 import Tl, lit, enc, states, series, exprs, tlq, tlx, perq, perx, judge, TEXTS

ID = "A02"
QUICK, THOROUGH = 1500, 30000
RULE = ("seeded series of 2..80 (time, state) rows cut into 1..8 consecutive pieces (also pieces of one row, and pieces that share a boundary row), rolled up in any order, in two "
        "levels, as partial aggregates and from stored text; buckets interpolated with their predecessor (function and arrow forms, with lag(), without predecessor); "
        "overlapping pieces and mixed state types refused; distinct = distinct (timelines, cuts)")
ASSUMPTIONS = ["one state per instant", "a bucket contains its piece; the predecessor ends before the bucket starts"]
MUST_OBSERVE = ["text", "int", "compact", "rollup", "rollup2", "partial_rollup", "round_trip", "state_across_cut", "shared_boundary", "interpolated", "interp_compact", "new_state_from_prev", "no_prev",
                "refused_overlap", "refused_mix", "arrow", "null_pieces", "periods", "timeline", "durations"]


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.parts = {False: Parts(self, "ap", "o int, a stateagg"), True: Parts(self, "aq", "o int, a toolkit_experimental.compactstateagg")}
        SqlWorker.__init__(self, ctx)

    def case(self, r, idx, rec):
        ty, st = states(r)
        rec.count("int" if ty == "bigint" else "text")
        compact = r.random() < .25
        if compact:
            rec.count("compact")
        sch = "toolkit_experimental." if compact else ""
        n = max(2, gen.size(r, 80))
        rows = series(r, n, st)
        pieces = gen.split_contiguous(r, rows, r.choice([None, None, 2, 8]))
        tls = [Tl(p) for p in pieces]
        k = len(pieces)
        if r.random() < .5:
            self.roll(r, idx, rec, ty, st, compact, sch, rows, pieces, tls)
        else:
            self.interp(r, idx, rec, ty, st, compact, sch, rows, pieces, tls)
        if r.random() < .08 and n > 3:
            self.refusals(r, rec, ty, st, sch, rows)

    def source(self, r, rec, ty, compact, pieces, sch):
        vals = ",".join("(%d,%s,%s)" % (i, ts_lit(t), lit(ty, s)) for i, p in enumerate(pieces) for t, s in r.sample(p, len(p)))
        src = "SELECT i, %s%s(t,s) a FROM (VALUES %s) d(i,t,s) GROUP BY i" % (sch, "compact_state_agg" if compact else "state_agg", vals)
        if r.random() < .3:
            rec.count("round_trip")
            src = "SELECT i, a::text::%s a FROM (%s) z" % (sch + ("compactstateagg" if compact else "stateagg"), src)
        return "WITH s AS MATERIALIZED (%s) " % src

    def roll(self, r, idx, rec, ty, st, compact, sch, rows, pieces, tls):
        k = len(pieces)
        # a boundary row present in both pieces (the state is the same: it is one row)
        for i in range(1, k):
            if r.random() < .2 and len(pieces[i]) > 1 and pieces[i][0] not in pieces[i - 1] and len(pieces[i - 1]) >= 1:
                pieces[i - 1] = pieces[i - 1] + [pieces[i][0]]
                # two pieces must not start at one time
                if len({min(p)[0] for p in pieces}) < k:
                    pieces[i - 1] = pieces[i - 1][:-1]
                else:
                    rec.count("shared_boundary")
        if any(a[-1][1] == b[0][1] for a, b in zip(pieces, pieces[1:])):
            rec.count("state_across_cut")
        src = self.source(r, rec, ty, compact, pieces, sch)
        order = list(range(k))
        r.shuffle(order)
        by = "ORDER BY array_position(ARRAY[%s], i)" % ",".join(map(str, order))
        form = r.choice(["rollup", "rollup2", "partial_rollup"])
        if form == "rollup":
            nul = ""
            if r.random() < .3:
                rec.count("null_pieces")
                nul = " UNION ALL SELECT %d, NULL" % k
            q = "SELECT %srollup(a %s) a FROM (SELECT * FROM s%s) z" % (sch, by, nul)
        elif form == "rollup2":
            # contiguous groups: their rollups must not overlap either
            cut = sorted(r.sample(range(k), min(k, r.randint(1, 3))))
            g = "(CASE %s ELSE 99 END)" % " ".join("WHEN i<=%d THEN %d" % (c, j) for j, c in enumerate(cut))
            q = "SELECT %srollup(a ORDER BY -g) a FROM (SELECT %s g, %srollup(a %s) a FROM s GROUP BY 1) z" % (sch, g, sch, by)
        else:
            P = self.parts[compact]
            P.ensure()
            self.Q(rec, "TRUNCATE %s; %sINSERT INTO %s SELECT (i*7+%d)%%%d, i, a FROM s %s" % (P.name, src, P.name, r.randrange(4), r.choice([1, 2, 4]), by))
            q = "SELECT %srollup(a) a FROM %s" % (sch, P.name)
            src = "WITH s AS (SELECT 1) "
        rec.count(form)
        tl = Tl(rows)
        ex = exprs(r, ty, "a", tl, st, r.randint(3, 8), rec, compact)
        got = self.Q(rec, "%s, w AS MATERIALIZED (%s) SELECT %s FROM w" % (src, q, ", ".join(e[0] for e in ex)))[0]
        bad = judge(rec, got, ex)
        if bad:
            rec.fail("state:rollup", "%s of %d pieces of %d rows: %s" % (form, k, len(rows), "; ".join(bad[:3])))
        rec.seen((ty, tl.segs, [len(p) for p in pieces]))
        if idx < 6:
            rec.sample = "%s of %d pieces: %s = %s" % (form, k, ex[0][2], got[0])

    def interp(self, r, idx, rec, ty, st, compact, sch, rows, pieces, tls):
        k = len(pieces)
        # bucket i holds piece i; edges between the pieces
        edges = [tls[0].first - r.choice([0, 1, r.randint(0, 10 ** 8)])]
        for a, b in zip(tls, tls[1:]):
            edges.append(r.choice([a.last + 1, b.first, r.randint(a.last + 1, b.first)]))
        edges.append(tls[-1].last + r.choice([0, 1, r.randint(0, 10 ** 8)]))
        src = self.source(r, rec, ty, compact, pieces, sch)
        it = "int_" if ty == "bigint" else ""
        items, ex = [], []
        for i in range(k) if k < 4 else r.sample(range(k), 4):
            start, ln = edges[i], edges[i + 1] - edges[i]
            prev = None
            if i and r.random() < .85:
                # the predecessor of the documented pattern, or an older one
                prev = i - 1 if r.random() < .8 else r.randrange(i)
            else:
                rec.count("no_prev")
            tl = tls[i].interpolated(start, ln, tls[prev] if prev is not None else None)
            if prev is not None and tls[prev].segs[-1][0] not in tls[i].durations():
                rec.count("new_state_from_prev")
            a = "(SELECT a FROM s WHERE i=%d)" % i
            p = "(SELECT a FROM s WHERE i=%d)" % prev if prev is not None else "NULL::" + ("toolkit_experimental.compactstateagg" if compact else "stateagg")
            win = "%s,%s,%s" % (ts_lit(start), iv_lit(ln), p)
            rec.count("interpolated")
            for _ in range(r.randint(1, 3)):
                what = r.choice(["durations"] if compact else ["durations", "timeline", "periods"])
                arrow = not compact and r.random() < .5
                s = r.choice(list(tl.durations()) + st)
                if arrow:
                    rec.count("arrow")
                rec.count("interp_compact" if compact else what)
                if what == "durations":
                    w2, rng = win, None
                    if not compact and r.random() < .3 and ln > 1:
                        # any window behind the predecessor
                        lo = r.randint(start, edges[i + 1] - 1)
                        l2 = r.randint(0, 2 * ln)
                        if prev is None or lo >= tls[prev].last:
                            t2 = tls[i].interpolated(lo, l2, tls[prev] if prev is not None else None)
                            w2, rng = "%s,%s,%s" % (ts_lit(lo), iv_lit(l2), p), (t2, lo, lo + l2)
                    f = "%s->interpolated_duration_in(%s,%s)" % (a, lit(ty, s), w2) if arrow else "%sinterpolated_duration_in(%s,%s,%s)" % (sch, a, lit(ty, s), w2)
                    want = rng[0].within(s, rng[1], rng[2]) if rng else tl.durations().get(s, 0)
                    ex.append(("coalesce((%s)::text,'N')" % (IVSEC % f), str(want), "interpolated_duration_in(%r) in bucket %d" % (s, i)))
                elif what == "timeline":
                    f = "%s->interpolated_state_%stimeline(%s)" % (a, it, win) if arrow else "interpolated_state_%stimeline(%s,%s)" % (it, a, win)
                    ex.append((tlq(f, ty), tlx(tl, ty), "interpolated_state_timeline in bucket %d" % i))
                else:
                    f = "%s->interpolated_state_periods(%s,%s)" % (a, lit(ty, s), win) if arrow else "interpolated_state_periods(%s,%s,%s)" % (a, lit(ty, s), win)
                    ex.append((perq(f), perx(tl, s), "interpolated_state_periods(%r) in bucket %d" % (s, i)))
        got = self.Q(rec, src + "SELECT " + ", ".join(e[0] for e in ex))[0]
        bad = judge(rec, got, ex)
        if bad:
            rec.fail("state:interpolate", "%d buckets of %d rows: %s" % (k, len(rows), "; ".join(bad[:3])))
        rec.seen((ty, [t.segs for t in tls], edges))
        if idx < 6:
            rec.sample = "%s = %s" % (ex[0][2], got[0])

    def refusals(self, r, rec, ty, st, sch, rows):
        fn = "toolkit_experimental.compact_state_agg" if sch else "state_agg"
        agg = lambda rs, t=ty: "(SELECT %s(t,s) FROM (VALUES %s) d(t,s))" % (fn, ",".join("(%s,%s)" % (ts_lit(a), lit(t, b)) for a, b in rs))
        i = r.randint(1, len(rows) - 2)
        x, e = self.err(rec, "SELECT %srollup(a) FROM (VALUES (%s),(%s)) v(a)" % (sch, agg(rows[:i + 2]), agg(rows[i:] if r.random() < .5 else rows[i - 1:i + 1])))
        rec.count("refused_overlap")
        if e is None:
            rec.fail("state:overlap", "overlapping pieces were rolled up")
        o = "text" if ty == "bigint" else "bigint"
        x, e = self.err(rec, "SELECT %srollup(a) FROM (VALUES (%s),(%s)) v(a)" % (sch, agg(rows[:i]), agg([(rows[i][0], "q" if o == "text" else 5)], o)))
        rec.count("refused_mix")
        if e is None:
            rec.fail("state:mix", "text and integer states were rolled up together")
