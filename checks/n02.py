"""max_n_by / min_n_by: the n largest values, each with the data of a row of its own."""
from collections import Counter
from run import SqlWorker
from pg import *
import gen
from checks.n01 import AGT, values, lit, parse

ID = "N02"
QUICK, THOROUGH = 3000, 40000
RULE = ("seeded multisets of 1..300 (value, data) rows, values bigint/float8/timestamptz with many ties, data of 16 types (short and toasted-size text and bytea, numeric, "
        "arrays, jsonb, composite, bool, and types of fixed length from 1 to 64 bytes), n 1..300, serially, by rollup (also of rollups), as window aggregate over all prefixes, after storing in a table; "
        "distinct = distinct (n, results)")
ASSUMPTIONS = ["no NULL values or data (they are refused with an error)", "of rows that tie for the last place any may be listed"]
MUST_OBSERVE = ["max", "min", "bigint", "float8", "timestamptz", "rollup", "rollup2", "window", "stored", "full", "underfull", "tie_at_the_cut", "mismatch",
                "text", "bigtext", "int", "numeric", "int[]", "jsonb", "bool", "nmpair", "uuid", "interval", "timetz", "macaddr", "name", "point", "char", "bytea"]

DATA = {
    "int": lambda i, r: ("int", "%d" % i),
    "text": lambda i, r: ("text", "'t%d'" % i),
    "bigtext": lambda i, r: ("text", "repeat('%s%d', %d)" % (r.choice("abé"), i, r.choice([1, 40, 700, 3000]))),
    "numeric": lambda i, r: ("numeric", "%d.%d" % (i, r.randint(0, 99))),
    "int[]": lambda i, r: ("int[]", "ARRAY[%s]" % ",".join(str(i + k) for k in range(r.randint(1, 30)))),
    "jsonb": lambda i, r: ("jsonb", "'{\"i\": %d, \"s\": [%s]}'" % (i, ",".join("1" for _ in range(r.randint(0, 60))))),
    "bool": lambda i, r: ("bool", "'%s'" % (i % 2 == 0)),
    "uuid": lambda i, r: ("uuid", "md5('%d')::uuid" % i),
    "interval": lambda i, r: ("interval", "'%d months %d days %d seconds'" % (i, i * 3, i * 7)),
    "timetz": lambda i, r: ("timetz", "'%02d:%02d:00+%02d'" % (i // 60 % 24, i % 60, i % 12)),
    "macaddr": lambda i, r: ("macaddr", "'08:00:2b:01:%02x:%02x'" % (i // 256, i % 256)),
    "name": lambda i, r: ("name", "'%s%d'" % ("n" * (i % 50), i)),
    "point": lambda i, r: ("box", "'(%d,%d),(%d,0.5)'" % (i, i + 1, -i)),
    "char": lambda i, r: ("\"char\"", "'%s'" % chr(65 + i % 26)),
    "bytea": lambda i, r: ("bytea", "'\\x%s'" % ("%04x" % i * r.choice([1, 3, 900]))),
    "nmpair": lambda i, r: ("nmpair", "ROW(%d,'%s')::nmpair" % (i, "z" * (i % 50))),
}


def db_setup(c, ctx):
    c.exec("CREATE TYPE nmpair AS (a int, b text)")


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        ty, mx, dt = r.choice(list(AGT)), r.random() < .5, r.choice(list(DATA))
        rec.count(ty)
        rec.count(dt)
        rec.count("max" if mx else "min")
        m = r.choice([1, 2, r.randint(2, 12), r.randint(10, 60), r.randint(60, 300)])
        if dt == "bigtext":
            m = min(m, 40)
        n = r.choice([1, 2, 3, r.randint(1, 20), m, m + 1, max(1, m - 1), 300])
        vs = values(r, ty, m)
        if r.random() < .4:
            vs = [r.choice(vs[:5]) for _ in vs]
        if r.random() < .3:
            vs.sort(reverse=r.random() < .5)
        if ty == "float8":
            vs = [v + 0.0 if v else 0.0 for v in vs]
        data = [DATA[dt](i, r) for i in range(m)]
        sqlt = data[0][0]
        fn = "%s_n_by(v,d,%d)" % ("max" if mx else "min", n)
        base = "(SELECT o, v, dd::%s d FROM (VALUES %s) e(o,v,dd)) b" % (sqlt, ",".join("(%d,%s,%s)" % (i, lit(ty, v), d[1]) for i, (v, d) in enumerate(zip(vs, data))))
        mode = r.choice(["serial", "rollup", "rollup2", "window"])
        what = "%s over %d (%s, %s) (%s)" % (fn, m, ty, dt, mode)
        tail = None
        if mode == "serial":
            src = "SELECT 0 o, %s a FROM b" % fn
        elif mode == "window":
            keep = sorted(r.sample(range(m), min(m, 8)))
            src = "SELECT o, a FROM (SELECT o, %s OVER (ORDER BY o) a FROM b) w WHERE o IN (%s)" % (fn, ",".join(map(str, keep)))
        else:
            g = r.choice([2, 3, 8])
            by = "o*%d/%d" % (g, m) if r.random() < .5 else "(o*7919)%%%d" % g
            src = "SELECT g, %s a FROM (SELECT %s g, v, d FROM b) e GROUP BY g" % (fn, by)
            if mode == "rollup2":
                src = "SELECT rollup(a) a FROM (%s) s GROUP BY g%%2" % src
            src = "SELECT 0 o, rollup(a) a FROM (%s) s" % src
        rec.count(mode)
        ctes = "WITH b AS MATERIALIZED (SELECT * FROM %s)" % base
        out = ("SELECT s.o, x.v, x.d::text, x.ord FROM s, LATERAL into_values(a, NULL::%s) WITH ORDINALITY x(v,d,ord)" % sqlt)
        alld = "SELECT -1, v, d::text, o FROM b"
        if r.random() < .3:
            rec.count("stored")
            self.Q(rec, "DROP TABLE IF EXISTS nmst; CREATE TEMP TABLE nmst AS %s %s" % (ctes, src))
            got = self.Q(rec, "%s SELECT * FROM (%s UNION ALL SELECT s.o, x.v, x.d::text, x.ord FROM nmst s, LATERAL into_values(a, NULL::%s) WITH ORDINALITY x(v,d,ord)) y ORDER BY 1,4"
                         % (ctes, alld, sqlt))
        else:
            got = self.Q(rec, "%s, s AS MATERIALIZED (%s) SELECT * FROM (%s UNION ALL %s) y ORDER BY 1,4" % (ctes, src, alld, out))
        rows = [(parse(ty, g[1]), g[2]) for g in got if g[0] == "-1"]
        res = {}
        for g in got:
            if g[0] != "-1":
                res.setdefault(int(g[0]), []).append((parse(ty, g[1]), g[2]))
        bad = []
        for o in (keep if mode == "window" else [0]):
            have, pre = res.get(o, []), rows[:o + 1] if mode == "window" else rows
            want = sorted((v for v, _ in pre), reverse=mx)[:n]
            rec.count("full" if len(pre) >= n else "underfull")
            if len(pre) > n and sorted((v for v, _ in pre), reverse=mx)[n] == want[-1]:
                rec.count("tie_at_the_cut")
            if [v for v, _ in have] != want:
                bad.append("values %s.., expected %s.." % ([v for v, _ in have][:4], want[:4]))
            extra = Counter(have) - Counter(pre)
            if extra:
                k = list(extra)[0]
                bad.append("the pair (%s, %.80s) is listed more often than it occurs" % k)
        if r.random() < .1:
            self.mismatch(r, rec, ty, mx, dt, n)
        if bad:
            rec.fail("nmost_by:" + mode, what + ": " + "; ".join(bad[:3]))
        if m > 1:
            rec.seen((n, sorted(res.items())))
        if idx < 4:
            rec.sample = "%s -> %s" % (what, [(v, d[:20]) for v, d in list(res.values())[0][:4]])

    def mismatch(self, r, rec, ty, mx, dt, n):
        """data of one type is never read, or rolled up, as that of another"""
        rec.count("mismatch")
        other = r.choice([d for d in DATA if DATA[d](0, r)[0] != DATA[dt](0, r)[0]])
        (t1, d1), (t2, d2) = DATA[dt](1, r), DATA[other](2, r)
        v = lit(ty, values(r, ty, 1)[0])
        fn = "%s_n_by" % ("max" if mx else "min")
        one = lambda t, d: "%s(%s, %s::%s, %d)" % (fn, v, d, t, max(n, 2))  # both rows are listed
        for q in ("SELECT (into_values(%s, NULL::%s)).data::text" % (one(t1, d1), t2),
                  "SELECT into_values(rollup(a), NULL::%s)::text FROM (SELECT %s a UNION ALL SELECT %s) s" % (t1, one(t1, d1), one(t2, d2))):
            got, e = self.err(rec, q)
            if e is None:
                rec.fail("nmost_by:mismatch", "data of type %s was read or rolled up as %s: %s" % (t1, t2, str(got)[:100]))
