"""Window aggregates: the answer for a row is the plain aggregate of that row's frame."""
from run import SqlWorker
from pg import *
import gen, cat

ID = "X02"
QUICK, THOROUGH = 1500, 40000
RULE = ("every aggregate of the extension (and the rollup of its results) as a window aggregate over 1..60 seeded rows with expanding, whole-partition, moving and excluding "
        "frames, FILTER and PARTITION BY, all accessors read from every row's result and compared with the plain aggregate of exactly the rows of that frame; "
        "distinct = distinct (aggregate, frame, answers)")
ASSUMPTIONS = ["answers agree exactly; for stats_agg in moving frames (inverse transition) and tdigest (buffer flushes) up to rounding or only for the exact accessors"]
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["frame:expanding", "frame:whole", "frame:moving", "frame:exclude", "frame:following", "frame:groups", "filter", "partition", "rollup", "rows_compared",
                                                  "null_rows", "inline"]

INV = ("stats1d", "stats1d_int", "stats2d", "stats1d_tf", "stats2d_tf")


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        names = sorted(cat.KINDS)
        k, cols, rows = cat.instance(r, names[idx % len(names)], n=gen.size(r, r.choice([20, 60])))
        rec.count("agg:" + k.name)
        if not k.order and k.name not in ("lttb", "gp_lttb", "asap") and r.random() < .4:
            r.shuffle(rows)
        agg = k.agg(r, rows).replace("{o}", "")
        n = len(rows)
        if r.random() < .25 and not k.refuses_null:
            # rows of NULLs are no rows; in the middle of the series, or first
            for _ in range(r.randint(1, 2)):
                rows.insert(r.randint(0, len(rows)), ["NULL::%s" % c[1] for c in cols])
            rec.count("null_rows")
        n = len(rows)
        names_ = ", ".join(c[0] for c in cols)
        accs = k.accs(r, [x for x in rows if not x[0].startswith("NULL")])
        use = r.sample(accs, min(len(accs), 8))
        part = r.choice([None, None, None, 2])
        gs = [r.randrange(part) for _ in rows] if part else [0] * n
        if part:
            rec.count("partition")
        data = "WITH d(rn, gr, %s) AS MATERIALIZED (VALUES %s)" % (names_, ",".join("(%d,%d,%s)" % (i, gs[i], ",".join(x)) for i, x in enumerate(rows)))
        roll = k.roll and k.pieces != "none" and r.random() < .3
        if roll and k.pieces == "time" and not all(a <= b for a, b in zip(*(lambda t: (t, t[1:]))([x for x in map(self.ts, rows) if x is not None]))):
            roll = False
        if roll and not part:
            rec.count("rollup")
            w = r.choice([1, 2, 3])
            data += ", e AS MATERIALIZED (SELECT rn/%d rn, 0 gr, %s a FROM (SELECT * FROM d ORDER BY rn) z GROUP BY rn/%d)" % (w, agg, w)
            agg, d = k.roll.replace("{a}", "a"), "e"
        else:
            roll, d = False, "d"
        frame, cond = self.frame(r, rec)
        inv = k.name in INV and (not roll)
        filt, fc = "", ""
        if r.random() < .2:
            rec.count("filter")
            m = r.choice([2, 3])
            filt, fc = " FILTER (WHERE rn %% %d <> 1)" % m, " AND i.rn %% %d <> 1" % m
        win = "%s%s OVER (%sORDER BY rn %s)" % (agg, filt, "PARTITION BY gr " if part else "", frame)
        inline = r.random() < .3
        if inline:
            rec.count("inline")
            q1 = "%s SELECT rn, %s FROM (SELECT rn, %s a FROM %s) w ORDER BY rn" % (data, ", ".join(x.sql("a") for x in use), win, d)
        else:
            q1 = "%s, w AS MATERIALIZED (SELECT rn, %s a FROM %s) SELECT rn, %s FROM w ORDER BY rn" % (data, win, d, ", ".join(x.sql("a") for x in use))
        sub = "(SELECT %s a FROM (SELECT * FROM %s i WHERE i.gr=o.gr AND %s%s ORDER BY i.rn) i)" % (agg, d, cond, fc)
        q2 = "%s, w AS MATERIALIZED (SELECT rn, %s a FROM %s o) SELECT rn, %s FROM w ORDER BY rn" % (data, sub, d, ", ".join(x.sql("a") for x in use))
        got, e1 = self.err(rec, q1)
        want, e2 = self.err(rec, q2)
        if e1 or e2:
            if not (e1 and e2):
                rec.fail("window:error:" + k.name, "%s as a window aggregate over '%s': %s; as plain aggregates of the frames: %s" % (agg, frame, e1 or "no error", e2 or "no error"))
            elif e1.code == "XX000" and "panick" in e1.msg:
                rec.inconclusive("both failed: %s" % e1)
            else:
                rec.inconclusive("both refused: %s: %s" % (k.name, e1))
            return
        bad = []
        for a, b in zip(got, want):
            for x, u, v in zip(use, a[1:], b[1:]):
                mode = x.mode
                if inv and not frame.startswith("ROWS UNBOUNDED PRECEDING") and mode != "exact" and x.name not in ("sum", "average", "sum_x", "sum_y", "average_x", "average_y"):
                    continue  # inverse transitions leave rounding errors: S03 judges them with exact arithmetic
                if not inv or frame.startswith("ROWS UNBOUNDED PRECEDING"):
                    mode = "exact"
                if k.flush and mode != "exact":
                    mode = "f"
                if k.flush and x.name in ("mean",):
                    mode = "f"
                rec.count("rows_compared")
                if k.name == "hll":
                    # the switch from the sparse to the dense form (both estimate the same set) depends on when the buffer was last merged
                    ok = u == v or (u is not None and v is not None and abs(float(u) - float(v)) <= max(2, .2 * float(v)))
                    rec.count("hll_switch", u != v)
                else:
                    ok = cat.same(mode, u, v)
                if not ok:
                    bad.append("row %s: %s = %s, the frame alone gives %s" % (a[0], x.fn, u, v))
        if len(got) != len(want):
            bad.append("%d rows instead of %d" % (len(got), len(want)))
        if bad:
            rec.fail("window:" + k.name + (":rollup" if roll else ""), "%s over '%s'%s: %s" % (agg, frame, filt, "; ".join(bad[:3])))
        rec.seen((k.name, frame, got))
        if idx < 6:
            rec.sample = "%s over '%s': last row %s" % (agg[:80], frame, got[-1][1:3])

    @staticmethod
    def ts(row):
        if "timestamptz" not in row[0] or row[0].startswith("NULL"):
            return None
        return ts_parse(row[0].split("'")[1])

    def frame(self, r, rec):
        x = r.random()
        a, b = r.randint(0, 6), r.randint(0, 3)
        if x < .4:
            rec.count("frame:expanding")
            return "ROWS UNBOUNDED PRECEDING", "i.rn<=o.rn"
        if x < .5:
            rec.count("frame:whole")
            return "ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING", "true"
        if x < .7:
            rec.count("frame:moving")
            return "RANGE BETWEEN %d PRECEDING AND %d FOLLOWING" % (a, b), "i.rn>=o.rn-%d AND i.rn<=o.rn+%d" % (a, b)
        if x < .8:
            rec.count("frame:exclude")
            return "ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING EXCLUDE CURRENT ROW", "i.rn<>o.rn"
        if x < .9:
            rec.count("frame:following")
            return "ROWS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING", "i.rn>=o.rn"
        rec.count("frame:groups")
        return "RANGE BETWEEN %d PRECEDING AND CURRENT ROW" % a, "i.rn>=o.rn-%d AND i.rn<=o.rn" % a
