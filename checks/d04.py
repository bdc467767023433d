"""count_min_sketch: estimates are never too low and rarely too high; merging adds."""
import math
from run import SqlWorker
from pg import *
from parts import Parts
import gen, orc

ID = "D04"
QUICK, THOROUGH = 900, 20000
RULE = ("seeded streams of 0..4000 words (Zipf, uniform, unique; empty, long, non-ASCII words; NULLs), error 0.002..0.9 and probability 0.001..0.9, "
        "aggregated serially, in partial states over 1..4 partitions, and after a text round trip; every word and 10 absent ones are looked up; "
        "a case counts with >= 2 distinct words; distinct = distinct (parameters, estimates)")
ASSUMPTIONS = ["the bound 'at most error*N too high with the given probability' is judged over all lookups of a run (hashing is deterministic)"]
MUST_OBSERVE = ["estimates", "exact", "overestimates", "partial_plans", "round_trips", "null_results", "refused"]
T = "toolkit_experimental."


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.parts = Parts(self, "cm", "o int, v text")
        self.above, self.expect = {}, {}
        SqlWorker.__init__(self, ctx)

    def word(self, r, k):
        s = r.random()
        return "" if k == 0 else "w%d" % k if s < 2 and k % 5 else ["é%d" % k, "x" * (k % 300) + str(k), "日本%d" % k, "%d'\\" % k][k % 4]

    def refused(self, r, rec):
        bad = r.choice(["0", "1", "-0.5", "1.5", "'inf'", "'nan'", "'-inf'", "1e300"])
        e, d = r.choice([("0.1", bad), (bad, "0.1")])
        q = "SELECT %scount_min_sketch(v,%s::float8,%s::float8) FROM (VALUES ('a')) d(v)" % (T, e, d)
        res, x = self.err(rec, q)
        if x is None:
            rec.fail("count:parameters", "%s answered %s" % (q, str(res)[:200]))
        else:
            rec.count("refused")

    def case(self, r, idx, rec):
        if idx % 40 == 9:
            self.refused(r, rec)
            return
        e = r.choice([.9, .5, .2, .1, .05, .02, .01, .005, .002])
        d = r.choice([.9, .5, .3, .1, .05, .01, .001])
        m = r.choice([0, 1, 2, r.randint(3, 30), r.randint(30, 300), r.randint(300, 1200)])
        kind = r.choice(["zipf", "uniform", "unique"])
        u = r.choice([3, 20, 200, 2000])
        ks = []
        for i in range(m):
            ks.append(i if kind == "unique" else r.randrange(u) if kind == "uniform" else min(u, int(r.paretovariate(1.1))) - 1)
        true = {}
        for k in ks:
            true[k] = true.get(k, 0) + 1
        rows = list(ks)
        for _ in range(r.choice([0, 0, 2])):
            rows.insert(r.randint(0, len(rows)), None)
        N = m
        fn = T + "count_min_sketch(v,%r,%r)" % (e, d)
        lits = ["NULL" if k is None else s_lit(self.word(r, k)) for k in rows]
        look = r.sample(sorted(true), min(len(true), 120)) + [5000 + r.randrange(10 ** 6) for _ in range(10)]
        lookv = "(VALUES %s) l(o,w)" % ",".join("(%d,%s)" % (i, s_lit(self.word(r, k))) for i, k in enumerate(look))
        what = "count_min_sketch(%r,%r) of %d %s words" % (e, d, m, kind)
        if not rows:
            got = self.Q(rec, "SELECT %sapprox_count('x', %s) FROM (SELECT NULL::text v WHERE false) d" % (T, fn))
            rec.count("null_results")
            if got[0][0] is not None:
                rec.fail("count:none", "approx_count over no rows: %s" % got[0][0])
            return
        cols = "%sapprox_count(w,a)" % T
        plan = r.random() < .5
        if plan:
            np = r.randint(1, 4)
            prow = [(r.randrange(np), "%d,%s" % (i, l)) for i, l in enumerate(lits)]
            self.parts.load(rec, prow)
            q = "SELECT %s a FROM cm" % fn
            if idx % 50 == 0 and self.parts.is_partial(rec, q):
                rec.count("partial_plans")
            src = "(%s)" % q
        else:
            src = "(SELECT %s a FROM (VALUES %s) d(v))" % (fn, ",".join("(%s::text)" % l for l in lits))
        got = self.Q(rec, "WITH s AS MATERIALIZED %s SELECT %s, %s FROM s, %s ORDER BY o" % (
            src, cols, cols.replace(",a)", ",a::text::%scountminsketch)" % T), lookv))
        if m == 0:
            if any(x[0] is not None for x in got):
                rec.fail("count:nulls", "%s: approx_count is %s" % (what, got[0][0]))
            rec.count("null_results")
            return
        est = [None if x[0] is None else int(x[0]) for x in got]
        rec.count("estimates", len(est))
        rec.count("round_trips")
        bad = []
        depth = math.ceil(math.log(1 / d))
        for k, x, g in zip(look, est, got):
            t = true.get(k, 0)
            if x is None:
                bad.append("no estimate for %r" % self.word(r, k))
                continue
            if g[1] != g[0]:
                bad.append("after a text round trip %s, before %s" % (g[1], g[0]))
            if x < t or x > N:
                bad.append("%r counted %d times of %d, estimate %d" % (self.word(r, k), t, N, x))
            rec.count("exact" if x == t else "overestimates")
            if x > t + e * N:
                self.above[depth] = self.above.get(depth, 0) + 1
            self.expect[depth] = self.expect.get(depth, 0) + math.exp(-depth)
        if plan:
            ser = self.Q(rec, "SELECT (SELECT %s FROM (VALUES %s) d(v))::text = %s::text" % (
                fn, ",".join("(%s::text)" % l for l in lits), src))[0][0]
            rec.count("partial_compared")
            if ser != "t":
                bad.append("aggregated in parts (%d) it differs from the serial sketch" % np)
        if bad:
            rec.fail("count", what + ": " + "; ".join(bad[:4]))
        if len(true) > 1:
            rec.seen((e, d, est))
        if idx < 4:
            rec.sample = "%s: estimates %s" % (what, est[:8])

    def finish(self, rec):
        for d, x in self.expect.items():
            a = self.above.get(d, 0)
            rec.count("lookups_beyond_the_error_depth_%d" % d, a)
            if a > x * 1.2 + (40 if d < 3 else 12):
                rec.fail("count:accuracy", "%d lookups beyond error*N at depth %d, at most %.0f expected" % (a, d, x))
