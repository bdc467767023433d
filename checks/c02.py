"""rollup of counter_agg / gauge_agg summaries over disjoint time ranges."""
from run import SqlWorker
from pg import *
import gen, orc
from checks import c01

ID = "C02"
QUICK, THOROUGH = 3000, 50000
RULE = ("a seeded series is cut into 1..6 contiguous (or interleaved) groups, aggregated per group and rolled up (one or two "
        "levels, groups in random order, NULL summaries mixed in); a case counts when >= 2 groups were rolled up; distinct = "
        "distinct accessor result vectors")
ASSUMPTIONS = ["finite values", "group boundaries at distinct timestamps"]
MUST_OBSERVE = ["rollups_checked", "two_level_rollups", "overlaps_refused", "boundary_resets"]


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        counter = r.random() < .65
        fn, acc = ("counter_agg", c01.CNT) if counter else ("gauge_agg", c01.ACC)
        n = gen.size(r)
        ts = gen.times(r, n)
        seq = list(zip(ts, gen.counter_vals(r, n)))
        if r.random() < .15 and n >= 4:
            return self.overlap(r, rec, fn, seq)
        groups = gen.split_contiguous(r, seq)
        rows = []
        for g, part in enumerate(groups):
            part = list(part)
            if r.random() < .2:
                part.append(r.choice(part))
            rows += [(g, t, v) for t, v in part]
        if r.random() < .2:
            rows.append((len(groups), ts[0], None))     # a group whose summary is NULL
        r.shuffle(rows)
        vals = rows_values([(str(g), ts_lit(t), f_lit(v)) for g, t, v in rows], 3)
        ng = len(groups) + 1
        perm = list(range(ng))
        r.shuffle(perm)
        inner = "SELECT (ARRAY[%s])[g+1] o, g, %s(t,v) a FROM %s d(g,t,v) GROUP BY g" % (",".join(map(str, perm)), fn, vals)
        two = r.random() < .4
        if two:
            # contiguous super-groups, so that every level stays disjoint
            k = r.randint(1, 3)
            inner = "SELECT min(o) o, g/%d g, rollup(a ORDER BY o) a FROM (%s) q GROUP BY g/%d" % (k, inner, k)
            rec.count("two_level_rollups")
        try:
            got = self.Q(rec, "SELECT %s FROM (SELECT rollup(a ORDER BY o) a FROM (%s) q) s" % (",".join(acc), inner))[0]
        except PgError as e:
            if counter and "timestamp out of range" in e.msg:
                rec.count("zero_time_out_of_range")
                return
            raise
        d = dict(zip(acc, got))
        if d["delta(a)"] is None:
            rec.fail(fn + ":rollup-null", "rollup of %d non-empty summaries is NULL" % len(groups))
            return
        c01.check_metric(rec, d, [seq], counter, fn + ":rollup")
        rec.count("rollups_checked")
        for a, b in zip(groups, groups[1:]):
            if b[0][1] < a[-1][1]:
                rec.count("boundary_resets")
        if len(groups) > 1:
            rec.seen(got)
        if idx < 3:
            rec.sample = "rollup of %d groups of %s (%d points, two levels: %s)" % (len(groups), fn, n, two)

    def overlap(self, r, rec, fn, seq):
        """summaries whose time ranges overlap can not be combined: an error, never a silently wrong summary"""
        n = len(seq)
        a, b = sorted(r.sample(range(n), 2))
        # group 1 spans [0..b], group 2 starts at or before b and ends at or after b
        one, two = seq[:b + 1], seq[a if a else 1:]
        if r.random() < .3:
            two = [(one[-1][0], two[-1][1])] + [p for p in two if p[0] > one[-1][0]]   # only the boundary is shared
        vals = rows_values([("1", ts_lit(t), f_lit(v)) for t, v in one] + [("2", ts_lit(t), f_lit(v)) for t, v in two], 3)
        rows, e = self.err(rec, "SELECT rollup(a) FROM (SELECT %s(t,v) a FROM %s d(g,t,v) GROUP BY g) q" % (fn, vals))
        if e is None:
            rec.fail(fn + ":overlap-accepted", "rollup of summaries with overlapping time ranges did not fail")
        elif "out of order" not in e.msg:
            rec.fail(fn + ":overlap-error", "rollup of overlapping summaries failed with %s" % e)
        else:
            rec.count("overlaps_refused")
