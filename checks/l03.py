"""asap_smooth: a moving average of the series, as smooth as the search finds without losing its outliers."""
import math
from fractions import Fraction as F
from run import SqlWorker
from pg import *
import gen
from checks.l01 import arr_rel, OUT, parse_out

ID = "L03"
QUICK, THOROUGH = 2400, 20000
RULE = ("seeded series of 1..600 points (noise, seasonal, spiked, trended, constant, infinite values, irregular and tied times), resolutions 1..3n, as aggregate over any order with "
        "NULLs and on sorted and unsorted timevectors; window recovered from the result and recomputed exactly; distinct = distinct outputs")
ASSUMPTIONS = ["the smoothness target is the binary search over windows up to a tenth of the series: a better window than it finds is accepted"]
MUST_OBSERVE = ["aggregate", "timevector", "preaggregated", "smoothed", "kept_as_is", "nulls", "unsorted", "searched", "constant", "tied_times", "refused", "empty"]


def metrics(x):
    n = len(x)
    m = math.fsum(x) / n
    d = [v - m for v in x]
    var = math.fsum(v * v for v in d)
    k = n * math.fsum(v ** 4 for v in d) / var ** 2 if var > 0 else float("nan")
    if n < 2:
        return k, float("nan")
    df = [b - a for a, b in zip(x, x[1:])]
    dm = math.fsum(df) / len(df)
    return k, math.sqrt(math.fsum((v - dm) ** 2 for v in df) / len(df))


def sma(x, w):
    fx = [F(v) for v in x]
    s = sum(fx[:w])
    out = [s]
    for i in range(w, len(fx)):
        s += fx[i] - fx[i - w]
        out.append(s)
    return [float(v / w) for v in out]


def series(r, n):
    kind = r.choice(["noise", "season", "spike", "spike", "spike", "trend", "const", "steps", "mixed", "mixed"])
    if kind == "noise":
        return kind, [r.gauss(10, 3) for _ in range(n)]
    if kind == "const":
        return kind, [r.choice([0.0, 1.5, 1e6])] * n
    p = r.uniform(3, max(4, n / 3))
    a = r.uniform(0, 2)
    v = [10 * math.sin(2 * math.pi * i / p) + r.gauss(0, a) for i in range(n)]
    if kind == "spike":
        v = [r.gauss(0, 1) for _ in range(n)]
    if kind == "trend":
        v = [x * .1 + i * .5 for i, x in enumerate(v)]
    if kind in ("spike", "mixed"):
        for _ in range(r.randint(1, 3)):
            v[r.randrange(n)] += r.choice([-1, 1]) * r.uniform(30, 300)
    if kind == "steps":
        v = [float(round(x / 8)) for x in v]
    return kind, v


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        n = r.choice([1, 2, 3, 9, 10, 11, r.randint(4, 40)] + [r.randint(20, 600)] * 12)
        ts = gen.times(r, n, r.choice(["s", "ms", "reg"]))
        if r.random() < .1:
            rec.count("tied_times")
            for i in range(1, n):
                if r.random() < .3:
                    ts[i] = ts[i - 1]
        kind, v = series(r, n)
        if kind == "const":
            rec.count("constant")
        tied = len(set(ts)) < n
        k = max(1, r.choice([1, 2, 10, n // 3, n // 2, (n - 1) // 2, n, 3 * n, r.randint(1, n), r.randint(1, n), r.randint(max(1, n // 20), n)]))
        rows = list(zip(ts, v))
        form = r.choice(["aggregate", "timevector"])
        rec.count(form)
        shuffled = not tied and r.random() < .5
        if shuffled:
            r.shuffle(rows)
            rec.count("unsorted")
        if form == "aggregate":
            if r.random() < .4:
                rec.count("nulls")
                for _ in range(3):
                    rows.insert(r.randint(0, len(rows)), (r.choice(ts), None))
            q = "SELECT asap_smooth(t,v,%d) a FROM %s" % (k, arr_rel(rows))
        else:
            q = "SELECT asap_smooth(tv,%d) a FROM (SELECT timevector(t,v ORDER BY o) tv FROM %s) z" % (k, arr_rel(rows))
        got = self.Q(rec, "WITH s AS MATERIALIZED (%s) SELECT %s FROM s" % (q, OUT % ts_lit(ts[0])))[0][0]
        out = parse_out(got, ts[0])
        bad = self.judge(rec, list(zip(ts, v)), k, out)
        if bad:
            rec.fail("asap", "asap_smooth (%s%s) of %d points (%s) at resolution %d: %s" % (form, ", unsorted" if shuffled else "", n, kind, k, bad))
        rec.seen(out[:30])
        if idx < 3:
            rec.sample = "%s: %d points at resolution %d -> %s" % (form, n, k, out[:3])
        if r.random() < .05:
            z = r.choice([0, -1, -2 ** 31])
            _, e = self.err(rec, "SELECT asap_smooth(t,v,%d) FROM %s" % (z, arr_rel(rows[:3])) if not any(x[1] is None for x in rows[:3]) and r.random() < .5
                            else "SELECT asap_smooth(timevector('2020-01-01+00',1),%d)" % z)
            rec.count("refused")
            if e is None:
                rec.fail("asap:resolution", "a resolution of %d was accepted" % z)
        if r.random() < .05:
            rec.count("empty")
            got = self.Q(rec, "SELECT asap_smooth(t,v,%d) IS NULL FROM (VALUES (%s,NULL::float8),(NULL,1)) d(t,v)" % (k, ts_lit(ts[0])))[0][0]
            if got != "t":
                rec.fail("asap:empty", "asap_smooth over rows with NULLs only is not NULL")

    def judge(self, rec, pts, k, out):
        n = len(pts)
        v = [p[1] for p in pts]
        p = n // k if n > 2 * k else 1
        g = [float(sum(F(x) for x in v[i:i + p]) / p) for i in range(0, n - p + 1, p)] if p > 1 else v
        m = len(g)
        if p > 1:
            rec.count("preaggregated")
        w = m - len(out) + 1
        if not 1 <= w <= max(1, m // 10 + 1) or len(out) > 2 * k:
            return "%d points for %d groups" % (len(out), m)
        rec.count("smoothed" if w > 1 else "kept_as_is")
        want = sma(g, w)
        big = max(abs(x) for x in v)
        tol = big * n * 4e-16 + 1e-300
        for i, (o, x) in enumerate(zip(out, want)):
            if abs(o[1] - x) > tol:
                return "value %d is %r, not the mean %r of the %d groups of %d from %d" % (i, o[1], x, w, p, i)
        slack = max(.5, (p - 1) / 2)
        for i, o in enumerate(out):
            c = (i + (w - 1) / 2) * p + (p - 1) / 2
            lo, hi = max(0, math.ceil(c - slack)), min(n - 1, math.floor(c + slack))
            if not any(pts[j][0] == o[0] for j in range(min(lo, n - 1), hi + 1)):
                return "point %d of window %d x %d has time %s, not that of an input point at its centre %s" % (i, w, p, o[0], [pts[j] for j in range(lo, hi + 1)])
        if m < 2:
            return None
        k0, r0 = metrics(g)
        k1, r1 = metrics(want)
        noise = big * n * 1e-14
        if not (k0 > 0) or r0 <= noise:
            return None if r1 <= noise or w == 1 or not (k0 > 0) else "rougher than the original"
        if w > 1 and k1 < k0 * (1 - 1e-9):
            return "window %d lowers the kurtosis from %g to %g" % (w, k0, k1)
        if w > 1 and r1 > r0 * (1 + 1e-9) + noise:
            return "window %d raises the roughness from %g to %g" % (w, r0, r1)
        # the search the smoothness is measured against
        head, tail, best, bw = 1, m // 10, r0, 1
        while head <= tail:
            x = (head + tail + 1) // 2
            kx, rx = metrics(sma(g, x))
            if x > 1 and not abs(kx - k0) > 1e-9 * k0:
                rec.count("near_ties")
                return None
            if x == 1 or kx >= k0:
                if rx < best:
                    best, bw = rx, x
                head = x + 1
            else:
                tail = x - 1
        rec.count("searched")
        if r1 > best * (1 + 1e-6) + noise:
            return "window %d leaves the roughness at %g, but the search over windows finds %d with %g" % (w, r1, bw, best)
        return None
