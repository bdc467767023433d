"""freq_agg / mcv_agg (SpaceSaving): frequency bounds, nothing frequent missing, topn."""
import math
from run import SqlWorker
from pg import *
from parts import Parts
import gen, orc

ID = "D05"
QUICK, THOROUGH = 1500, 30000
RULE = ("seeded streams of 1..1500 values (Zipf, uniform, round robin, sorted, bursts; NULLs; equal values spelled differently) of bigint, text and 7 more "
        "types, into freq_agg (0.002..0.9) and mcv_agg (n 1..20, skew 1.01..5), serially, in partial states over partitions, by rollup (also twice) and after a "
        "text round trip; a case counts with >= 2 distinct values; distinct = distinct (parameters, result vectors)")
ASSUMPTIONS = ["rollups combine aggregates made with the same parameters",
               "the skew requirement of mcv_agg is judged only away from its rounding boundary"]
MUST_OBSERVE = ["listed", "evicted", "exact_results", "must_be_listed", "partial", "rollup", "rollup2", "round_trip", "topn", "topn_error_n", "topn_error_skew",
                "freq_agg", "mcv_agg", "raw", "type_mismatch_refused", "unknown_type_refused", "bigint", "text"]

# type -> value k, in one of several spellings
TYPES = {
    "bigint": lambda k, r: "%d" % (k * 3 - 100 if k % 7 else k * 10 ** 15),
    "text": lambda k, r: s_lit("%s%d" % (["", "é", "x" * (k % 150), "日"][k % 4], k)),
    "int": lambda k, r: "%d" % (k * 7 - 1000),
    "smallint": lambda k, r: "%d" % (k - 500),
    "numeric": lambda k, r: "%d.%s" % (k, r.choice(["5", "50", "500"])),
    "float8": lambda k, r: "%r" % (k / 8.0),
    "timestamptz": lambda k, r: "'%s'" % ts_text(k * 1000003),
    "uuid": lambda k, r: "'%032x'" % (k * 0x9e3779b97f4a7c15),
    "int[]": lambda k, r: "'{%d,%d}'" % (k, k // 2),
}


def zeta(s, _c={}):
    if s not in _c:
        n = 2000
        x = sum(i ** -s for i in range(1, n))
        _c[s] = x + n ** (1 - s) / (s - 1) + .5 * n ** -s + s / 12 * n ** (-s - 1)
    return _c[s]


def stream(r):
    n = r.choice([1, 2, r.randint(3, 40), r.randint(40, 300), r.randint(300, 1500)])
    u = r.choice([1, 2, 5, 30, 150, 900])
    kind = r.choice(["zipf", "zipf", "steep", "uniform", "round", "sorted", "bursts", "late"])
    if kind == "uniform":
        ks = [r.randrange(u) for _ in range(n)]
    elif kind == "round":
        ks = [i % u for i in range(n)]
    elif kind == "bursts":
        ks = []
        while len(ks) < n:
            ks += [r.randrange(u)] * r.randint(1, 8)
    elif kind == "late":
        h = n * r.randint(1, 4) // 8
        ks = [1 + i % u for i in range(n - h)] + [0] * h
        return ks, kind
    else:
        a = 3.0 if kind == "steep" else r.choice([.6, 1.1, 1.5])
        ks = [min(u, int(r.paretovariate(a))) - 1 for _ in range(n)]
    if kind == "sorted":
        ks.sort(reverse=r.random() < .5)
    elif r.random() < .5 and kind != "round":
        r.shuffle(ks)
    return ks, kind


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.parts = {t: Parts(self, "fq_" + t.replace("[]", "a"), "o int, v " + t) for t in TYPES}
        SqlWorker.__init__(self, ctx)

    def mismatch(self, r, rec):
        """a value of one type is never taken for one of another"""
        t1, t2 = r.sample(list(TYPES), 2)
        mcv = r.random() < .6
        n = r.randint(1, 3)
        fn = "raw_mcv_agg(%d,v)" % n if mcv else "toolkit_experimental.raw_freq_agg(%r,v)" % r.choice([.9, .3, .1])

        def agg(t):
            ks = [r.randint(1, 4)] * 30 + [5]
            return "(SELECT %s a FROM (VALUES %s) d(v))" % (fn, ",".join("(%s::%s)" % (TYPES[t](k, r), t) for k in ks))
        other = r.choice(["NULL::%s" % t2, "(%s)::%s" % (TYPES[t2](1, r), t2), "(SELECT NULL::%s WHERE random()<0)" % t2])
        k = r.randrange(4)
        if k == 0:
            q = "SELECT rollup(a)::text FROM (SELECT * FROM %s x UNION ALL SELECT * FROM %s y) s" % (agg(t1), agg(t2))
        elif k == 1 and "NULL" not in other:
            q = "SELECT into_values(a, %s)::text FROM %s s" % (other, agg(t1))
        elif k == 2 and mcv:
            q = "SELECT topn(a, %s)::text FROM %s s" % (other, agg(t1))
        else:
            q = "SELECT topn(a, %d, %s)::text FROM %s s" % (r.randint(0, n), other, agg(t1))
        res, e = self.err(rec, q)
        if e is None:
            rec.fail("freq:type", "%s answered %s" % (q[:300], res))
        elif "types" not in e.msg:
            rec.fail("freq:type-error", "%s: %s" % (q[:300], e.msg[:200]))
        else:
            rec.count("type_mismatch_refused")
        # parameters out of range
        q = "SELECT %s FROM (VALUES (1::bigint)) d(v)" % r.choice(
            ["mcv_agg(%d,v)" % r.choice([0, -1, -2 ** 31]), "mcv_agg(3,%s,v)" % r.choice(["1", "0", "-5", "'nan'"]), "raw_mcv_agg(0,v)", "mcv_agg(0,1.5,v::text)",
             "toolkit_experimental.freq_agg(%s,v)" % r.choice(["0", "1", "-0.1", "'inf'", "'nan'", "'-inf'", "2"]), "toolkit_experimental.raw_freq_agg(0,v)"])
        res, e = self.err(rec, q)
        if e is None:
            rec.fail("freq:parameter", "%s answered %s" % (q, res))
        else:
            rec.count("parameter_refused")
        # a type that this database does not have
        nm = r.choice(['("public","no_such_type")', '("no_such_schema","int4")', '("pg_catalog","bigint")', "0", "4294967295"])
        q = "SELECT count(*), (count(*) FILTER (WHERE x.v IS NULL)) FROM (SELECT regexp_replace(a::text, '(type_oid:|datums:.)[0-9]+', '\\1%s', 'g')::spacesavingaggregate a FROM %s s) t, LATERAL (SELECT topn(a, 1, NULL::%s)::text) x(v)" % (nm, agg(t1), t1)
        res, e = self.err(rec, q)
        if e is None:
            rec.fail("freq:unknown-type", "%s answered %s" % (q[:300], res))
        else:
            rec.count("unknown_type_refused")
        # and with the type it was made of
        q = "SELECT count(*) FROM %s s, LATERAL topn(a, 1, NULL::%s) x" % (agg(t1), t1)
        if self.Q(rec, q)[0][0] != "1":
            rec.fail("freq:type-null", "no value from " + q[:300])

    def case(self, r, idx, rec):
        if idx % 30 == 7:
            self.mismatch(r, rec)
            return
        ty = r.choice(["bigint", "text"] * 4 + list(TYPES))
        f = TYPES[ty]
        raw = ty not in ("bigint", "text") or r.random() < .15
        ks, kind = stream(r)
        true = {}
        for k in ks:
            true[k] = true.get(k, 0) + 1
        N = len(ks)
        rows = list(ks)
        for _ in range(r.choice([0, 0, 2])):
            rows.insert(r.randint(0, len(rows)), None)
        lits = ["NULL" if k is None else f(k, r) for k in rows]
        mcv = r.random() < .5
        rec.count("mcv_agg" if mcv else "freq_agg")
        rec.count(ty)
        if raw:
            rec.count("raw")
        if mcv:
            n = r.choice([1, 2, 3, 5, 10, 20])
            skew = r.choice([None, 1.01, 1.1, 1.5, 2.0, 3.0, 5.0])
            fn = "%smcv_agg(%d%s,v)" % ("raw_" if raw else "", n, "" if skew is None else ",%r" % skew)
            skew = skew or 1.1
            z = zeta(skew)
            peq = n ** -skew / z
            plt = sum(i ** -skew for i in range(1, n)) / z
            slots = n - 1 + int((1 - plt) / peq * (1 - 1e-9)) + 1
        else:
            fr = r.choice([.9, .5, .34, .2, .1, .05, .02, .01, .002, r.uniform(.003, .99)])
            fn = "toolkit_experimental.%sfreq_agg(%r,v)" % ("raw_" if raw else "", fr)
            slots = int(1 / fr) + 1
        what = "%s of %d %s %s, %d distinct" % (fn, N, kind, ty, len(true))
        serial = False
        mode = r.choice(["serial", "serial", "partial", "rollup", "rollup2"])
        vals = "(SELECT o, v::%s v FROM (VALUES %s) d(o,v))" % (ty, ",".join("(%d,%s)" % (i, l) for i, l in enumerate(lits)))
        if mode == "serial":
            src = "SELECT %s a FROM %s d" % (fn, vals)
        elif mode == "partial":
            np = r.randint(1, 4)
            cut = r.random() < .5
            self.parts[ty].load(rec, [(i * np // len(lits) if cut else r.randrange(np), "%d,%s" % (i, l)) for i, l in enumerate(lits)])
            src = "SELECT %s a FROM %s" % (fn, self.parts[ty].name)
        else:
            g = r.choice([2, 3, 8])
            by = "o*%d/%d" % (g, len(lits)) if r.random() < .5 else "(o*7919)%%%d" % g
            src = "SELECT g, %s a FROM (SELECT %s g, v FROM %s d) e GROUP BY g" % (fn, by, vals)
            if mode == "rollup2":
                src = "SELECT rollup(a) a FROM (%s) s GROUP BY g%%2" % src
            src = "SELECT rollup(a) a FROM (%s) s" % src
        rec.count(mode)
        agt = "spacesavingaggregate" if raw else "spacesaving%saggregate" % ty
        if r.random() < .4:
            rec.count("round_trip")
            src = "SELECT a::text::%s a FROM (%s) rt" % (agt, src)
        uni = sorted(true)
        absent = [max(uni) + 1, max(uni) + 5]
        univ = "(SELECT k, v::%s v FROM (VALUES %s) u(k,v))" % (ty, ",".join("(%d,%s)" % (k, f(k, r)) for k in uni + absent))
        dummy = ",%s::%s" % (f(1, r), ty) if raw else ""
        q = ("WITH s AS MATERIALIZED (%s), u AS MATERIALIZED %s, i AS MATERIALIZED (SELECT x.* FROM s, LATERAL into_values(a%s) WITH ORDINALITY x(v,lo,hi,ord)) "
             "SELECT u.k, i.ord, i.lo, i.hi, min_frequency(s.a,u.v), max_frequency(s.a,u.v), (SELECT count(*) FROM i) FROM s, u LEFT JOIN i ON i.v=u.v ORDER BY u.k"
             % (src, univ, dummy))
        got = self.Q(rec, q)
        bad = []
        if not got:
            rec.fail("freq:null", what + ": no aggregate")
            return
        listed = []
        for g in got:
            k = int(g[0])
            t = true.get(k, 0)
            lo, hi = f_parse(g[4]), f_parse(g[5])
            if g[1] is None:
                if lo != 0 or hi != 0:
                    bad.append("value %d is not listed but its frequency is [%s,%s]" % (k, lo, hi))
                if t and t * slots > N * (1 + 1e-9):
                    bad.append("value %d with frequency %d/%d is not listed" % (k, t, N))
                if t:
                    rec.count("evicted")
                if len(true) <= slots and t:
                    bad.append("value %d was dropped although %d distinct values fit" % (k, len(true)))
            else:
                ilo, ihi = f_parse(g[2]), f_parse(g[3])
                rec.count("listed")
                if (ilo, ihi) != (lo, hi):
                    bad.append("into_values [%s,%s], min/max_frequency [%s,%s]" % (ilo, ihi, lo, hi))
                clo, chi = round(lo * N), round(hi * N)
                if abs(clo - lo * N) > 1e-6 or abs(chi - hi * N) > 1e-6:
                    bad.append("frequency [%s,%s] is not of %d values" % (lo, hi, N))
                if not (0 <= clo <= t <= chi <= N):
                    bad.append("value %d with frequency %d/%d is listed with [%d,%d]" % (k, t, N, clo, chi))
                if len(true) <= slots and (clo != t or chi != t):
                    bad.append("value %d counted [%d,%d], true %d, no eviction was needed" % (k, clo, chi, t))
                listed.append((int(g[1]), k, chi))
            if t * slots > N:
                rec.count("must_be_listed")
        listed.sort()
        if len(listed) != int(got[0][6]) or len({x[1] for x in listed}) != len(listed):
            bad.append("%s values listed, %d recognised" % (got[0][6], len(listed)))
        if any(a[2] < b[2] for a, b in zip(listed, listed[1:])):
            bad.append("not in decreasing order of frequency")
        tot = sum(x[2] for x in listed)
        if tot > N or (mode == "serial" and tot != N):
            bad.append("counts add up to %d of %d" % (tot, N))
        if len(true) <= slots:
            rec.count("exact_results")
        # topn
        m = r.choice([0, 1, 2, 3, 10, 21, 1000, -1])
        dflt = mcv and r.random() < .3
        if dflt:
            m = n
        td = "topn(a%s%s)" % ("" if dflt else ",%d" % m, dummy)
        t, e = self.err(rec, "SELECT (SELECT k FROM %s u WHERE u.v=x.v) FROM (%s) s, LATERAL %s WITH ORDINALITY x(v,ord) ORDER BY ord" % (univ, src, td))
        order = [x[1] for x in listed if mcv or x[2] / N >= fr]
        want, may_err, must_err = order[:max(m, 0)], False, False
        if mcv and m >= 0:
            if m > n:
                must_err = may_err = True
                rec.count("topn_error_n")
            else:
                need = sum(i ** -skew for i in range(1, m + 1)) / z * N
                have = sum(x[2] for x in listed[:m])
                must_err = have < need - 1e-6 * N
                may_err = have < need + 1 + 1e-6 * N
                if must_err:
                    rec.count("topn_error_skew")
        if e is not None:
            if not may_err or not ("skewed" in e.msg or "exceeds" in e.msg):
                bad.append("topn(%d) failed: %s" % (m, e.msg))
        elif must_err:
            bad.append("topn(%d) did not fail" % m)
        else:
            rec.count("topn")
            t = [None if x[0] is None else int(x[0]) for x in t]
            if t != want:
                # a rollup inside the same statement may break ties differently, the counts may not
                hi = {x[1]: x[2] for x in listed}
                if mode == "serial" or len(t) != len(want) or [hi.get(k) for k in t] != [hi.get(k) for k in want]:
                    bad.append("topn(%d) = %s, expected %s" % (m, t[:10], want[:10]))
        if bad:
            rec.fail("freq" + (":" + mode), what + " (%s): " % mode + "; ".join(bad[:4]))
        if len(true) > 1:
            rec.seen((fn, [g[1:] for g in got]))
        if idx < 4:
            rec.sample = "%s (%s): first listed %s" % (what, mode, listed[:4])
