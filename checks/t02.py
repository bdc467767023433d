"""Every pipeline element does what it says to every timevector."""
from run import SqlWorker
from pg import *
import gen, pipe
from pipe import Refused
from checks.t01 import parse_tv, rel, gen_rows

ID = "T02"
QUICK, THOROUGH = 2400, 30000
RULE = ("seeded timevectors of 1..400 points (sorted or not, tied, NULL, NaN and infinite values, also emptied by a filter) through 1..4 random elements: 16 arithmetic ones, map (value, time), map_data, "
        "map_series, filter, sort, delta, fill_to; compared with the elements' definitions point by point with NULL flags and the sorted flag; distinct = distinct results")
ASSUMPTIONS = ["sign of zero is not specified", "values computed through logarithms, powers, roots and interpolation may differ in the last digits"]
MUST_OBSERVE = ["unary", "binary", "map", "map_time", "map_flip", "map_data", "map_series", "filter", "sort", "sort_ties", "delta", "fill_to", "filled", "reordered", "null_points", "emptied", "refused", "user_error", "function_in_text"]


def db_setup(c, ctx):
    c.exec(pipe.SETUP)


SETUP_DB = db_setup


def close(a, b, inexact):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return bool(inexact) and abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300) + inexact


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        if r.random() < .04:
            return self.user_errors(r, rec)
        n = r.choice([1, 2, 3, 7, 8, 9, 16, 17, r.randint(1, 40), r.randint(1, 120)])
        rows = gen_rows(r, rec, n, special=r.random() < .5)
        if r.random() < .5:
            rows.sort(key=lambda x: x[0])
        if r.random() < .4:
            rows = [(t, 1.5 if v is None else v) for t, v in rows]
        ties = r.random() < .05
        if ties:  # many points share a time: sort keeps their order
            some = [i * US for i in range(r.randint(1, 12))]
            rows = [(r.choice(some), None if r.random() < .1 else float(i)) for i in range(r.choice([30, 60, 200, 400]))]
            if r.random() < .5:
                rows = [(t, 0.5 if v is None else v) for t, v in rows]
            rec.count("sort_ties")
        flip = not ties and r.random() < .15
        if flip:
            rows = [(t, None if v is None else float(r.randint(-3, 3))) for t, v in rows]
            rows = [(t, v if v is not None else 0.0) for t, v in rows]
        s = [(t, pipe.NAN if v is None else v, v is None) for t, v in rows]
        q, inexact, kinds, refused, noise = "tv", 0, [], False, 0
        tainted = not pipe.is_sorted(s)  # a filter may leave sorted points that are still treated as unsorted
        for i in range(1 if flip else r.choice([1, 1, 2, 3, 4])):
            kind, sql, f, inexact = pipe.element(r, s, inexact, ["map_flip"] if flip else ["sort"] if ties and not i else None)
            q += " -> " + sql
            kinds.append(sql)
            rec.count("unary" if kind in pipe.UN else "binary" if kind in pipe.BI else kind)
            before = len(s)
            try:
                was = pipe.is_sorted(s)
                if tainted and was and kind in ("delta", "fill_to"):
                    rec.count("undecided_order")
                    return
                s = f(s)
                tainted = False if kind == "sort" else tainted or not pipe.is_sorted(s)
                # absolute noise from cancellation after inexact steps
                if inexact:
                    noise = max([noise] + [abs(p[1]) for p in s if p[1] == p[1] and abs(p[1]) < pipe.INF]) if s else noise
                if was and not pipe.is_sorted(s):
                    rec.count("reordered")
                if kind == "fill_to" and len(s) > before:
                    rec.count("filled")
                if before and not s:
                    rec.count("emptied")
            except Refused:
                refused = True
                break
            if not all(-4 * 10 ** 17 < p[0] < 9 * 10 ** 18 for p in s):
                return
        what = "%s on %d points" % (" -> ".join(kinds), n)
        got, e = self.err(rec, "SELECT (%s)::text FROM (SELECT timevector(t,v ORDER BY o) tv FROM %s) s" % (q, rel(rows)))
        if refused:
            rec.count("refused")
            if e is None:
                rec.fail("pipeline:accepted", "%s: unsorted points or NULLs were accepted: %s" % (what, got[0][0][:300]))
            return
        if e:
            raise e
        pts, nulls, srt = parse_tv(got[0][0])
        rec.count("null_points", len(nulls))
        bad = None
        if len(pts) != len(s):
            bad = "%d points, expected %d" % (len(pts), len(s))
        else:
            for i, (p, w) in enumerate(zip(pts, s)):
                if p[0] != w[0] or (i in nulls) != w[2] or (not w[2] and not close(p[1], w[1], inexact and 1e-9 * max(noise, 1e-300))):
                    bad = "point %d is %s%s, expected %s%s" % (i, p, " NULL" if i in nulls else "", w[:2], " NULL" if w[2] else "")
                    break
        if not bad and srt and not pipe.is_sorted(pts):
            bad = "unsorted points are marked sorted"
        if not bad and not srt and kinds[-1].endswith("sort()"):
            bad = "sorted points are not marked sorted"
        if bad:
            rec.fail("pipeline:" + kinds[-1].split("(")[0], "%s: %s" % (what, bad))
        rec.seen(got[0][0])
        if idx < 4:
            rec.sample = "%s: %s" % (what, got[0][0][:300])

    def user_errors(self, r, rec):
        """a user function that fails or returns NULL fails the statement, and only it"""
        rec.count("user_error")
        v = r.choice([-1.0, 0.0, 1.0])
        fn = r.choice(["vp_null", "vp_raise"])
        rows = [(i * US, r.choice([-2.0, -1.0])) for i in range(r.randint(0, 9))] + [(10 * US, v)]
        got, e = self.err(rec, "SELECT (timevector(t,v ORDER BY o) -> toolkit_experimental.map_data('%s'))::text FROM %s" % (fn, rel(rows)))
        if (e is None) != (v <= 0):
            rec.fail("pipeline:map_data-error", "map_data('%s') over values up to %s: %s" % (fn, v, e or got))
        if fn == "vp_raise" and e is not None and "positive" not in e.msg:
            rec.fail("pipeline:map_data-error", "the function's own error was lost: %s" % e)
        for bad in ("map_data('abs')", "map_data('vp_series')", "map_series('vp_affine')", "map($$ $value > 1 $$)", "map($$ $time $$)", "filter($$ $value $$)", "fill_to('0 s','locf')", "fill_to('1 s','median')"):
            if r.random() < .3:
                _, e = self.err(rec, "SELECT timevector('2020-01-01+00', 1) -> toolkit_experimental.%s" % bad)
                if e is None:
                    rec.fail("pipeline:accepted", "%s was accepted" % bad)
        # a pipeline read from its text form names functions that no constructor has looked at
        for el, f in (("MapData", "abs(integer)"), ("MapSeries", "abs(integer)"), ("MapData", "float8pl(double precision,double precision)"), ("MapData", "float8(integer)"),
                      ("MapData", "int8(double precision)"), ("MapData", "float4(double precision)"), ("MapSeries", "sqrt(double precision)"), ("MapData", "length(text)")):
            if r.random() < .3:
                rec.count("function_in_text")
                _, e = self.err(rec, "SELECT timevector('2020-01-01+00', 1) -> '(version:1,num_elements:1,elements:[%s(function:\"pg_catalog.%s\")])'::toolkit_experimental.unstabletimevectorpipeline" % (el, f))
                if e is None:
                    rec.fail("pipeline:accepted", "a pipeline with %s over %s was applied" % (el, f))
        _, e = self.err(rec, "SELECT timevector('2020-01-01+00', 1) -> toolkit_experimental.map_series('vp_series_null')")
        if e is None:
            rec.fail("pipeline:accepted", "map_series of a function that returns NULL was accepted")
