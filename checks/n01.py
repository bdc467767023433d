"""max_n / min_n: exactly the n largest (smallest) values, whatever the order, split or grouping."""
from run import SqlWorker
from pg import *
from parts import Parts
import gen, orc

ID = "N01"
QUICK, THOROUGH = 2500, 50000
RULE = ("seeded multisets of 1..400 bigint, float8 or timestamptz values (ties, extremes, infinities), n 1..500, any order, serially, in partial states over "
        "1..4 partitions (some empty), by rollup (also of rollups), as window prefixes, after a text round trip; distinct = distinct (n, results)")
ASSUMPTIONS = ["no NULL and no NaN values (they are refused with an error)", "rollups combine aggregates of one capacity"]
MUST_OBSERVE = ["max", "min", "bigint", "float8", "timestamptz", "partial", "empty_part", "rollup", "rollup2", "window", "full", "underfull", "ties", "round_trip"]

AGT = {"bigint": "ints", "float8": "floats", "timestamptz": "times"}


def values(r, ty, n):
    if ty == "float8":
        v = gen.floats(r, n)
        for i in range(n):
            if r.random() < .04:
                v[i] = r.choice([float("inf"), -float("inf"), 0.0, -0.0, 5e-324, 1.7976931348623157e308])
        return v
    if ty == "bigint":
        u = r.choice([3, 50, 10 ** 6, 2 ** 63 - 1])
        return [r.choice([2 ** 63 - 1, -2 ** 63]) if r.random() < .02 else r.randint(-u, u) for _ in range(n)]
    u = r.choice([3, 10 ** 6, 10 ** 15])
    b = gen.base_ts(r)
    return [r.choice([float("inf"), -float("inf")]) if r.random() < .02 else b + r.randint(-u, u) for _ in range(n)]


def lit(ty, v):
    if ty == "float8":
        return f_lit(v)
    if ty == "bigint":
        return "'%d'::bigint" % v
    return ts_lit("inf" if v == float("inf") else "-inf" if v == -float("inf") else v)


def parse(ty, s):
    if ty == "float8":
        return f_parse(s)
    if ty == "bigint":
        return int(s)
    t = ts_parse(s)
    return float(t) if t in ("inf", "-inf") else t


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.parts = {t: Parts(self, "nm_" + t, "o int, v " + t) for t in AGT}
        SqlWorker.__init__(self, ctx)

    def case(self, r, idx, rec):
        ty, mx = r.choice(list(AGT)), r.random() < .5
        rec.count(ty)
        rec.count("max" if mx else "min")
        m = r.choice([1, 2, r.randint(2, 12), r.randint(10, 60), r.randint(60, 400)])
        n = r.choice([1, 2, 3, r.randint(1, 20), m, m + 1, max(1, m - 1), 500])
        vs = values(r, ty, m)
        o = r.random()
        if o < .4:
            vs.sort(reverse=o < .2)
        fn = "%s_n(v,%d)" % ("max" if mx else "min", n)
        rows = ["%d,%s" % (i, lit(ty, v)) for i, v in enumerate(vs)]
        vals = "(VALUES %s) d(o,v)" % ",".join("(%s)" % x for x in rows)
        mode = r.choice(["serial", "partial", "rollup", "rollup2", "window"])
        what = "%s over %d %s (%s)" % (fn, m, ty, mode)
        exp = [vs]
        if mode == "serial":
            src = "SELECT 0 o, %s a FROM %s" % (fn, vals)
        elif mode == "partial":
            np = r.randint(1, 4)
            used = r.sample(range(4), np)
            if np < 4:
                rec.count("empty_part")
            self.parts[ty].load(rec, [(r.choice(used), x) for x in rows])
            src = "SELECT 0 o, %s a FROM %s" % (fn, self.parts[ty].name)
        elif mode == "window":
            back = r.choice([None, None, 0, 3])
            keep = sorted(r.sample(range(m), min(m, 12)))
            src = "SELECT o, a FROM (SELECT o, %s OVER (ORDER BY o ROWS %s PRECEDING) a FROM %s) w WHERE o IN (%s)" % (
                fn, "UNBOUNDED" if back is None else back, vals, ",".join(map(str, keep)))
            exp = [vs[0 if back is None else max(0, i - back):i + 1] for i in keep]
        else:
            g = r.choice([2, 3, 8])
            by = "o*%d/%d" % (g, m) if r.random() < .5 else "(o*7919)%%%d" % g
            src = "SELECT g, %s a FROM (SELECT %s g, v FROM %s) e GROUP BY g" % (fn, by, vals)
            if mode == "rollup2":
                src = "SELECT rollup(a) a FROM (%s) s GROUP BY g%%2" % src
            src = "SELECT 0 o, rollup(a) a FROM (%s) s" % src
        rec.count(mode)
        if r.random() < .3:
            rec.count("round_trip")
            src = "SELECT o, a::text::%s%s a FROM (%s) rt" % ("max" if mx else "min", AGT[ty], src)
        got = self.Q(rec,
                     "WITH s AS MATERIALIZED (%s) SELECT array_to_string(into_array(a),'|'), (SELECT string_agg(v::text,'|' ORDER BY ord) FROM into_values(a) "
                     "WITH ORDINALITY x(v,ord)), o FROM s ORDER BY o" % src)
        bad = []
        if len(got) != len(exp):
            bad.append("%d results, expected %d" % (len(got), len(exp)))
        for g, e in zip(got, exp):
            want = sorted(e, reverse=mx)[:n]
            rec.count("full" if len(e) >= n else "underfull")
            if len(set(want)) < len(want):
                rec.count("ties")
            for name, s in (("into_array", g[0]), ("into_values", g[1])):
                have = None if s is None else [parse(ty, x) for x in s.split("|")]
                if have != want:
                    i = next((i for i, (a, b) in enumerate(zip(have or [], want)) if a != b), min(len(have or []), len(want)))
                    bad.append("%s has %s values, expected %d; first difference at %d: %s, expected %s" % (
                        name, None if have is None else len(have), len(want), i, (have or [])[i:i + 2], want[i:i + 2]))
        if bad:
            rec.fail("nmost:" + mode, what + ": " + "; ".join(bad[:3]))
        if m > 1:
            rec.seen((n, got))
        if idx < 4:
            rec.sample = "%s -> %s" % (what, got[0][0][:120])
