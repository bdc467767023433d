"""tdigest: exact counts and extremes, bounded monotone estimates near the true order statistics."""
import bisect, math, re
from run import SqlWorker
from pg import *
import gen, orc
from orc import F, EPS

ID = "D01"
QUICK, THOROUGH = 1500, 25000
RULE = ("seeded samples of 1..2000 doubles (uniform, normal, log-normal, ties, sorted, reversed, infinities, NULL, NaN), digest sizes 2..300, built "
        "directly, by rollup over groups, as window prefixes and through text; a case counts with >= 2 distinct values; "
        "distinct = distinct quantile vectors")
ASSUMPTIONS = ["rank error bound 12/size*(sqrt(q(1-q))+2/size)+2/n, over twice the largest observed on the tree, for sizes >= 10",
               "interpolation is not judged where infinities are in the sample, which are of one sign"]
MUST_OBSERVE = ["quantiles", "ranks", "direct", "rollup", "prefix", "text", "compressed"]
QS = [0, 0.001, 0.01, 0.05, 0.1, 0.25, 0.4, 0.5, 0.501, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999, 1]


def sample(r, n):
    k = r.choice(["u", "g", "exp", "ties", "sorted", "rev", "int", "neg", "const", "two"])
    f = {"g": lambda: r.gauss(10, 3), "exp": lambda: math.exp(r.gauss(0, 5)), "ties": lambda: float(r.randint(0, 5)),
         "int": lambda: float(r.randint(-50, 50)), "neg": lambda: -math.exp(r.gauss(0, 2)), "const": lambda: 7.25,
         "two": lambda: r.choice([1.0, 1e6])}.get(k, lambda: r.uniform(-100, 100))
    xs = [f() for _ in range(n)]
    if k == "sorted":
        xs.sort()
    if k == "rev":
        xs.sort(reverse=True)
    return xs


def arr(xs):
    return "'{%s}'::float8[]" % ",".join("NULL" if x is None else "NaN" if x != x else repr(x).replace("inf", "Infinity") for x in xs)


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        n = r.choice([1, 2, 3, r.randint(4, 30), r.randint(30, 200), r.randint(200, 600 if not self.ctx.thorough else 3000)])
        size = r.choice([2, 5, 10, 20, 50, 100, 200, 300, r.randint(2, 300)])
        xs = sample(r, n)
        infs = r.random() < .08
        if infs:
            # of one sign: between the two infinities every interpolation is NaN by design
            sg = r.choice([math.inf, -math.inf])
            for _ in range(r.randint(1, 3)):
                xs[r.randrange(n)] = sg
        ins = list(xs)
        for _ in range(r.choice([0, 0, 1, 4])):
            ins.insert(r.randint(0, len(ins)), r.choice([None, math.nan]))
        mode = r.choice(["direct", "direct", "rollup", "rollup", "prefix", "text"])
        rec.count(mode)
        if mode == "direct":
            src = "SELECT tdigest(%d,v) a FROM unnest(%s) v" % (size, arr(ins))
        elif mode == "text":
            src = "SELECT (tdigest(%d,v)::text)::tdigest a FROM unnest(%s) v" % (size, arr(ins))
        elif mode == "rollup":
            g = r.choice([2, 3, 10, 40, len(ins) + 1])
            by = "o*%d/%d" % (g, len(ins) + 1) if r.random() < .5 else "(o*7919)%%%d" % g
            src = "SELECT rollup(a) a FROM (SELECT tdigest(%d,v) a FROM unnest(%s) WITH ORDINALITY x(v,o) GROUP BY %s) s" % (size, arr(ins), by)
        else:
            cut = r.randint(1, len(ins))
            src = ("SELECT a FROM (SELECT o, tdigest(%d,v) OVER (ORDER BY o) a FROM unnest(%s) WITH ORDINALITY x(v,o)) s WHERE o=%d"
                   % (size, arr(ins), cut))
            xs = [x for x in ins[:cut] if x is not None and x == x]
        n = len(xs)
        s = sorted(xs)
        vs = sorted(set([r.choice(xs) if xs else 0. for _ in range(4)] + ([s[0], s[-1]] if xs else []) + [r.uniform(-120, 120), -1e9, 1e9])) if xs else [0.0]
        got = self.Q(rec, "SELECT num_vals(a),mean(a),min_val(a),max_val(a),a::text,%s,%s FROM (%s) z" % (
            ",".join("approx_percentile(%r,a)" % q for q in QS), ",".join("approx_percentile_rank(%s,a)" % f_lit(v) for v in vs), src))[0]
        if not n:
            if got[0] is not None:
                rec.fail(mode + ":empty", "a digest of no values is not NULL: %s" % got[:5])
            return
        bad = []
        if got[0] is None:
            rec.fail(mode + ":null", "no digest for %d values" % n)
            return
        if f_parse(got[0]) != n:
            bad.append("num_vals %s, expected %d" % (got[0], n))
        if f_parse(got[2]) != s[0]:
            bad.append("min_val %s, expected %r" % (got[2], s[0]))
        if f_parse(got[3]) != s[-1]:
            bad.append("max_val %s, expected %r" % (got[3], s[-1]))
        fin = orc.isfin(s[0]) and orc.isfin(s[-1])
        if fin:
            m = sum(map(F, xs), F(0)) / n
            if not orc.close(f_parse(got[1]), m, rel=1e-9, scale=max(abs(s[0]), abs(s[-1])) * 1e-3):
                bad.append("mean %s, expected %r" % (got[1], float(m)))
        elif f_parse(got[1]) != (math.inf if math.inf in s else -math.inf):
            bad.append("mean with an infinity %s" % got[1])
        ws = [int(w) for w in re.findall(r"weight:(\d+)", got[4])]
        if sum(ws) != n:
            bad.append("centroid weights add up to %d of %d values" % (sum(ws), n))
        if min(ws) < 1:
            bad.append("an empty centroid")
        if len(ws) > 2 * size + 10:
            bad.append("%d centroids in a digest of size %d" % (len(ws), size))
        if len(ws) < n:
            rec.count("compressed")
        ms = [float(w) for w in re.findall(r"mean:([-\d.einf]+)", got[4])]
        if fin and ms != sorted(ms):
            bad.append("centroids out of order")
        if fin:
            prev = None
            span = F(EPS) * 64 * F(max(abs(s[0]), abs(s[-1])))
            for q, g in zip(QS, got[5:5 + len(QS)]):
                e = f_parse(g)
                rec.count("quantiles")
                if not (s[0] - span <= e <= s[-1] + span):
                    bad.append("approx_percentile(%r) = %r outside [%r,%r]" % (q, e, s[0], s[-1]))
                    continue
                if prev is not None and e < prev - span:
                    bad.append("approx_percentile(%r) = %r is below that of a smaller percentile, %r" % (q, e, prev))
                prev = e
                t = float(span)
                lo, hi = bisect.bisect_left(s, e - t) / n, bisect.bisect_right(s, e + t) / n
                d = max(0, lo - q, q - hi)
                if q == 0 and e != s[0] or q == 1 and e != s[-1]:
                    bad.append("approx_percentile(%r) = %r is not the extreme" % (q, e))
                if size >= 10 and d > 12 / size * (math.sqrt(q * (1 - q)) + 2 / size) + 2 / n + 1e-9:
                    bad.append("approx_percentile(%r) = %r of %d values has rank %.4f..%.4f (size %d)" % (q, e, n, lo, hi, size))
            prev = None
            for v, g in zip(vs, got[5 + len(QS):]):
                e = f_parse(g)
                rec.count("ranks")
                if not 0 <= e <= 1:
                    bad.append("approx_percentile_rank(%r) = %r" % (v, e))
                    continue
                if prev is not None and e < prev - 1e-9:
                    bad.append("approx_percentile_rank(%r) = %r is below that of a smaller value, %r" % (v, e, prev))
                prev = e
                t = float(span)
                lo, hi = bisect.bisect_left(s, v - t) / n, bisect.bisect_right(s, v + t) / n
                d = max(0, lo - e, e - hi)
                if size >= 10 and d > 12 / size * (math.sqrt(e * (1 - e)) + 2 / size) + 2 / n + 1e-9:
                    bad.append("approx_percentile_rank(%r) = %r of %d values, true rank %.4f..%.4f (size %d)" % (v, e, n, lo, hi, size))
        if bad:
            rec.fail(mode, "tdigest(%d) of %d values %s: %s" % (size, n, s[:3] + s[-2:], "; ".join(bad[:4])))
        if s[0] != s[-1]:
            rec.seen(got[5:])
        if idx < 4:
            rec.sample = "%s size %d of %d values in [%r,%r]: median %s" % (mode, size, n, s[0], s[-1], got[5 + 7])
