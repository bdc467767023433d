"""uddsketch / percentile_agg: the relative error the sketch reports is honoured."""
import bisect, math, re
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, EPS

ID = "D02"
QUICK, THOROUGH = 3000, 25000
RULE = ("seeded samples of 1..9000 doubles over many decades and both signs with zeros, infinities and NULL; sizes 3..6000, errors 1e-4..0.5; built "
        "directly, by rollup over groups, as window prefixes and through text; a case counts with >= 2 distinct values; distinct = "
        "distinct result vectors")
ASSUMPTIONS = ["NaN inputs are left out", "the estimate of percentile q is judged against the value of 0-based rank floor(n*q)"]
MUST_OBSERVE = ["quantiles", "ranks", "direct", "rollup", "prefix", "text", "compacted", "negative", "zero", "percentile_agg", "thousands_of_buckets"]
QS = [0, 0.001, 0.01, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999, 1]
SLACK = 1e-6


def sample(r, n):
    k = r.choice(["u", "g", "wide", "ties", "sorted", "int", "neg", "const", "mixed", "mixed", "vwide"])
    f = {"g": lambda: r.gauss(0, 30), "wide": lambda: 10 ** r.uniform(-5, 5), "ties": lambda: float(r.randint(0, 5)),
         "int": lambda: float(r.randint(-50, 50)), "neg": lambda: -math.exp(r.gauss(0, 2)), "const": lambda: 7.25,
         "mixed": lambda: r.choice([0.0, -1, 1]) * 10 ** r.uniform(-3, 3), "vwide": lambda: r.choice([-1, 1]) * 10 ** r.uniform(-30, 30)}.get(k, lambda: r.uniform(0.1, 100))
    xs = [float(f()) for _ in range(n)]
    if k == "sorted":
        xs.sort()
    return xs


def near(e, x, a):
    """e within relative error a of x"""
    if x in (math.inf, -math.inf):
        return e == x
    if not orc.isfin(e):
        return abs(x) * (1 + a) > 1e307
    return abs(F(e) - F(x)) <= F(a + SLACK) * abs(F(x)) + F(1e-300)


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        from checks.d01 import arr
        n = r.choice([1, 2, 3, r.randint(4, 30), r.randint(30, 200), r.randint(200, 600 if not self.ctx.thorough else 3000)])
        pagg = r.random() < .3
        huge = idx % 250 == 40
        if huge:
            n, pagg = r.choice([r.randint(1000, 4000), r.randint(5500, 9000)]), False
            rec.count("thousands_of_buckets")
        xs = sample(r, n)
        if huge:
            xs = [r.choice([-1, 1, 1]) * 10 ** r.uniform(-20, 20) for _ in range(n)]
            size, err = r.choice([900, 1500, 4900, 5100, 6000]), r.choice([0.0001, 0.001])
        elif pagg:
            size, err = 200, 0.001
        else:
            size = r.choice([20, 50, 100, 200, 1000, 6000, r.randint(10, 300)])
            err = r.choice([0.0001, 0.001, 0.01, 0.05, 0.1, 0.5])
        if r.random() < .06:
            xs[r.randrange(n)] = r.choice([math.inf, -math.inf])
        ins = list(xs)
        for _ in range(r.choice([0, 0, 1, 4])):
            ins.insert(r.randint(0, len(ins)), None)
        fn = "percentile_agg(v)" if pagg else "uddsketch(%d,%r,v)" % (size, err)
        if pagg:
            rec.count("percentile_agg")
        mode = r.choice(["direct", "direct", "rollup", "rollup", "prefix", "text"])
        rec.count(mode)
        if mode == "direct":
            src = "SELECT %s a FROM unnest(%s) v" % (fn, arr(ins))
        elif mode == "text":
            src = "SELECT (%s::text)::uddsketch a FROM unnest(%s) v" % (fn, arr(ins))
        elif mode == "rollup":
            g = r.choice([2, 3, 10, 40, len(ins) + 1])
            by = "o*%d/%d" % (g, len(ins) + 1) if r.random() < .5 else "(o*7919)%%%d" % g
            src = "SELECT rollup(a) a FROM (SELECT %s a FROM unnest(%s) WITH ORDINALITY x(v,o) GROUP BY %s) s" % (fn, arr(ins), by)
        else:
            cut = r.randint(1, len(ins))
            src = ("SELECT a FROM (SELECT o, %s OVER (ORDER BY o) a FROM unnest(%s) WITH ORDINALITY x(v,o)) s WHERE o=%d"
                   % (fn, arr(ins), cut))
            xs = [x for x in ins[:cut] if x is not None]
        n = len(xs)
        s = sorted(xs)
        vs = sorted(set([r.choice(xs) if xs else 0. for _ in range(4)] + [r.uniform(-120, 120), 0.0, -1e9, 1e9, 10 ** r.uniform(-6, 6)]))
        got = self.Q(rec, "SELECT num_vals(a),mean(a),error(a),total(a),a::text,%s,%s,approx_percentile_array(%s,a)::text FROM (%s) z" % (
            ",".join("approx_percentile(%r,a)" % q for q in QS), ",".join("approx_percentile_rank(%s,a)" % f_lit(v) for v in vs), arr(QS), src))[0]
        if not n:
            if got[0] is not None:
                rec.fail(mode + ":empty", "a sketch of no values is not NULL: %s" % got[:5])
            return
        if got[0] is None:
            rec.fail(mode + ":null", "no sketch for %d values" % n)
            return
        bad = []
        if f_parse(got[0]) != n:
            bad.append("num_vals %s, expected %d" % (got[0], n))
        fin = orc.isfin(s[0]) and orc.isfin(s[-1])
        if fin:
            t = sum(map(F, xs), F(0))
            sc = sum(abs(F(x)) for x in xs)
            if not orc.close(f_parse(got[3]), t, rel=1e-9, scale=sc * F(1, 1000)):
                bad.append("total %s, expected %r" % (got[3], float(t)))
            if not orc.close(f_parse(got[1]), t / n, rel=1e-9, scale=sc / n * F(1, 1000)):
                bad.append("mean %s, expected %r" % (got[1], float(t / n)))
        a = f_parse(got[2])
        if not err * (1 - 1e-9) <= a <= 1:
            bad.append("error %r of a sketch made with %r" % (a, err))
        bk = re.search(r"buckets:\[(.*)\]", got[4]).group(1)
        cs = [int(c) for c in re.findall(r"(?:\)|Zero),(\d+)\)", bk)]
        if sum(cs) != n:
            bad.append("bucket counts add up to %d of %d values" % (sum(cs), n))
        if len(cs) > max(size, 7):
            bad.append("%d buckets in a sketch of size %d" % (len(cs), size))
        if a > err * 1.5:
            rec.count("compacted")
            # never coarser than needed: a sketch one compaction finer would not have fit (2% slack for the grid)
        g = (1 + a) / (1 - a) if a < 1 else math.inf
        if a < .999:
            # the error may only have grown by compacting: alpha' = 2a/(1+a^2) repeatedly
            x = err
            steps = 0
            while x < a * (1 - 1e-6) and steps < 70:
                x = 2 * x / (1 + x * x)
                steps += 1
            if abs(x - a) > 1e-6 * a:
                bad.append("error %r is not on the ladder of %r" % (a, err))
            elif steps and mode in ("direct", "text"):
                # with the previous error, no more than `size` buckets would have been too few at some point:
                # the values span at least `size` distinct buckets of that grid
                pa = err
                for _ in range(steps - 1):
                    pa = 2 * pa / (1 + pa * pa)
                pg_ = math.log((1 + pa) / (1 - pa))
                def key(v, off):
                    return 0 if v == 0 else (math.copysign(1, v), math.inf if abs(v) == math.inf else math.ceil(math.log(abs(v)) / pg_ + off))
                ks = max(len({key(v, o) for v in xs}) for o in (-1e-9, 0, 1e-9))
                if ks <= size - 2:
                    bad.append("error grew to %r though %d buckets of error %r would do (size %d)" % (a, ks, pa, size))
            if any(v < 0 for v in xs):
                rec.count("negative")
            if any(v == 0 for v in xs):
                rec.count("zero")
            prev = None
            es = got[5:5 + len(QS)]
            for q, e_ in zip(QS, es):
                e = f_parse(e_)
                rec.count("quantiles")
                k = int(n * q)
                cands = {min(n - 1, max(0, j)) for j in (k, int(n * q + 1e-9), int(n * q - 1e-9))}
                if not any(near(e, s[j], a) for j in cands):
                    bad.append("approx_percentile(%r) = %r, true %r, error %r" % (q, e, s[min(n - 1, k)], a))
                if prev is not None and e < prev:
                    bad.append("approx_percentile(%r) = %r is below that of a smaller percentile, %r" % (q, e, prev))
                prev = e
            if [f_parse(x) for x in got[-1].strip("{}").split(",")] != [f_parse(x) for x in es]:
                bad.append("approx_percentile_array %s differs from approx_percentile %s" % (got[-1], es))
            prev = None
            for v, e_ in zip(vs, got[5 + len(QS):-1]):
                e = f_parse(e_)
                rec.count("ranks")
                if prev is not None and e < prev:
                    bad.append("approx_percentile_rank(%r) = %r is below that of a smaller value, %r" % (v, e, prev))
                prev = e
                # values more than a bucket away are surely on their side
                lo_v, hi_v = sorted((v / (g * (1 + SLACK)), v * g * (1 + SLACK)))
                lo, hi = bisect.bisect_left(s, lo_v) / n, bisect.bisect_right(s, hi_v) / n
                if not lo - 1e-9 <= e <= hi + 1e-9:
                    bad.append("approx_percentile_rank(%r) = %r, true rank within %r..%r" % (v, e, lo, hi))
        if bad:
            rec.fail(mode, "%s of %d values %s: %s" % (fn, n, s[:3] + s[-2:], "; ".join(bad[:4])))
        if s[0] != s[-1]:
            rec.seen(got[5:])
        if idx < 4:
            rec.sample = "%s %s of %d values in [%r,%r]: median %s error %s" % (mode, fn, n, s[0], s[-1], got[5 + 7], got[2])
