"""hyperloglog / approx_count_distinct: a deterministic function of the distinct set, close to its size."""
import math, re
from run import SqlWorker
from pg import *
import gen, orc

ID = "D03"
QUICK, THOROUGH = 700, 12000
RULE = ("seeded multisets of 1..3000 values of 9 types (with NULL, duplicates, equal values in different representations, shuffles), sizes 16..262144, "
        "aggregated directly, deduplicated and reordered, rolled up over random groupings, as window prefixes; a case counts with >= 2 "
        "distinct values; distinct = distinct (type, size, estimate, count)")
ASSUMPTIONS = ["accuracy bound: 7 standard errors plus 2 values (4.5 % at size 32768)"]
MUST_OBSERVE = ["estimates", "rollups", "uneven_rollups", "dense", "sparse", "same_set_compared", "prefix", "int", "text", "numeric", "float8", "approx_count_distinct"]

# type -> (distinct value k in several equal spellings)
TYPES = {
    "int": ("int", lambda k, r: "%d" % (k * 7 - 1000)),
    "bigint": ("bigint", lambda k, r: "%d" % (k * 10 ** 12 - 3)),
    "text": ("text", lambda k, r: "'v%d'" % k if k % 3 else "'%s%d'" % ("x" * (k % 200), k)),
    "numeric": ("numeric", lambda k, r: "%d.%s" % (k, r.choice(["5", "50", "500"]))),
    "float8": ("float8", lambda k, r: "%r" % (k / 8.0) if k else r.choice(["'0'", "'-0'"])),
    "timestamptz": ("timestamptz", lambda k, r: "'%s'" % ts_text(k * 1000003)),
    "uuid": ("uuid", lambda k, r: "'%032x'" % (k * 0x9e3779b97f4a7c15)),
    "intarr": ("int[]", lambda k, r: "'{%d,%d}'" % (k, k // 2)),
    "bool": ("bool", lambda k, r: "'t'" if k % 2 else "'f'"),
}


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        ty = r.choice(list(TYPES))
        sqlty, f = TYPES[ty]
        d = r.choice([1, 2, 3, r.randint(4, 40), r.randint(40, 300), r.randint(300, 1500)])
        off = r.randint(0, 10 ** 6)
        ks = list(range(off, off + d))
        if r.random() < .3 and ty == "float8":
            ks[0] = 0
        nd = len({k % 2 for k in ks}) if ty == "bool" else len(set(ks))
        rec.count(ty)
        size = r.choice([16, 17, 32, 64, 100, 128, 256, 1024, 4096, 32768, 262144])
        acd = r.random() < .2
        if acd:
            size = 32768
            rec.count("approx_count_distinct")
        p = max(4, (size - 1).bit_length())
        se = 1.04 / math.sqrt(1 << p)
        ins = list(ks)
        for _ in range(r.choice([0, d // 3, d])):
            ins.append(r.choice(ks))
        r.shuffle(ins)
        for _ in range(r.choice([0, 1, 3])):
            ins.insert(r.randint(0, len(ins)), None)
        lits = ["NULL" if k is None else f(k, r) for k in ins]
        fn = ("approx_count_distinct(v)" if acd else "hyperloglog(%d,v)" % size)
        vals = "(SELECT o, v::%s v FROM (VALUES %s) d(o,v))" % (sqlty, ",".join("(%d,%s)" % (i, l) for i, l in enumerate(lits)))
        nn = len(ins)
        g = r.choice([2, 3, 7, 30])
        by = "o*%d/%d" % (g, nn) if r.random() < .5 else "(o*7919)%%%d" % g
        order = ""
        if r.random() < .4:
            # pieces of very different sizes, in any order
            cuts = sorted({min(nn, r.choice([1, 3, r.randint(1, 60), r.randint(1, nn)])) for _ in range(r.choice([1, 2, 3]))})
            by = "CASE " + " ".join("WHEN o<%d THEN %d" % (c, i) for i, c in enumerate(cuts)) + " ELSE %d END" % len(cuts)
            g = len(cuts) + 1
            order = " ORDER BY %s" % r.choice(["k", "-k", "k%2,k", "k<>1,k"])
            rec.count("uneven_rollups")
        cut = r.randint(0, nn - 1)
        q = ("WITH d AS MATERIALIZED %s, a AS (SELECT 0 k, %s a FROM d UNION ALL SELECT 1, %s FROM (SELECT DISTINCT v FROM d ORDER BY v) x"
             " UNION ALL SELECT 2, rollup(a%s) FROM (SELECT %s k, %s a FROM d GROUP BY 1) s"
             " UNION ALL SELECT 3, a FROM (SELECT o, %s OVER (ORDER BY o) a FROM d) s WHERE o=%d"
             " UNION ALL SELECT 4, %s FROM d WHERE o<=%d)"
             " SELECT distinct_count(a), stderror(a), a::text FROM a ORDER BY k"
             % (vals, fn, fn, order, by, fn, fn, cut, fn, cut))
        got = self.Q(rec, q)
        what = "%s over %d distinct %s" % (fn, nd, ty)
        est = [None if x[0] is None else int(x[0]) for x in got]
        bad = []
        rec.count("estimates", 5)
        rec.count("rollups")
        rec.count("prefix")

        def body(t):
            return t

        kinds = ["Dense" in x[2] if x[2] else None for x in got]
        rec.count("dense" if kinds[0] else "sparse")
        for k, name in ((1, "the sorted distinct values"), (2, "the rollup of %d groups" % g)):
            if kinds[k] == kinds[0]:
                rec.count("same_set_compared")
                if est[k] != est[0]:
                    bad.append("%d, but %d for %s" % (est[0], est[k], name))
                elif body(got[k][2]) != body(got[0][2]):
                    bad.append("different sketches of one set: %s" % name)
        a, b = got[3], got[4]
        if (a[2] is None) != (b[2] is None):
            bad.append("window prefix %s, prefix aggregate %s" % (a[0], b[0]))
        elif a[2] is not None and ("Dense" in a[2]) == ("Dense" in b[2]) and a[2] != b[2]:
            bad.append("the window's prefix %s differs from the prefix aggregate %s" % (a[0], b[0]))
        pre = {k % 2 if ty == "bool" else k for k in ins[:cut + 1] if k is not None}
        for e, n, name in [(est[0], nd, "direct"), (est[1], nd, "distinct"), (est[2], nd, "rollup")] + ([(est[3], len(pre), "prefix")] if pre else []):
            if e is None:
                bad.append("no estimate (%s)" % name)
            elif abs(e - n) > 7 * se * n + 2:
                bad.append("%s estimate %d, standard error %.3f" % (name, e, se))
            elif not kinds[0] and name == "direct" and abs(e - n) > 3 + n * n / 2 ** 23:
                # still sparse: all but the full precision
                bad.append("%s estimate %d of a sparse sketch" % (name, e))
        if not pre and est[3] is not None:
            bad.append("estimate %s of nothing but NULLs" % est[3])
        for x in got:
            if x[1] is not None and abs(f_parse(x[1]) - se) > 1e-12:
                bad.append("stderror %s, expected %r" % (x[1], se))
        if bad:
            rec.fail("hll", what + ": " + "; ".join(bad[:4]))
        if nd > 1:
            rec.seen((ty, p, est))
        if idx < 4:
            rec.sample = "%s: estimates %s" % (what, est)
