"""Reference models and comparison helpers. Exact rational arithmetic where it matters."""
import math
from fractions import Fraction as F

EPS = 2.0 ** -52
US = 1000000


def isfin(x):
    return x is not None and x == x and x not in (math.inf, -math.inf)


def same(a, b):
    """exact equality of optional floats, NaN equal to NaN"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def close(got, want, rel=1e-9, abs_=0.0, scale=0.0):
    """got: float/None from the server; want: Fraction/float/None reference; scale: magnitude of
    the terms that were summed (absolute error allowed is rel*scale)"""
    if got is None or want is None:
        return got is None and want is None
    if not isfin(got):
        if isinstance(want, F):
            # overflow of the result itself is legitimate only when the exact value is huge
            return abs(want) > F(10) ** 300
        return same(float(got), float(want))
    w = want if isinstance(want, F) else (F(want) if isfin(want) else None)
    if w is None:
        return False
    tol = F(rel) * max(abs(w), F(scale)) + F(abs_) + F(5e-324)
    return abs(F(got) - w) <= tol


def fsqrt(x):
    """sqrt of a non-negative Fraction to ~1e-30 relative, as a Fraction"""
    if x <= 0:
        return F(0)
    n, d = x.numerator, x.denominator
    sh = max(0, 220 - (n.bit_length() - d.bit_length()))
    sh += sh & 1
    return F(math.isqrt((n << sh) // d), 1 << (sh // 2))


class Moments2:
    """exact two-variable moments"""

    def __init__(self, pts):  # (x, y) Fractions or floats
        self.n = n = len(pts)
        xs = [F(p[0]) for p in pts]
        ys = [F(p[1]) for p in pts]
        self.sx, self.sy = sum(xs, F(0)), sum(ys, F(0))
        if n:
            mx, my = self.sx / n, self.sy / n
            self.sxx = sum(((x - mx) ** 2 for x in xs), F(0))
            self.syy = sum(((y - my) ** 2 for y in ys), F(0))
            self.sxy = sum(((x - mx) * (y - my) for x, y in zip(xs, ys)), F(0))
            self.maxx = max(abs(x) for x in xs)
            self.maxy = max(abs(y) for y in ys)

    def slope(self):
        if self.n < 2 or self.sxx == 0:
            return None
        return self.sxy / self.sxx

    def intercept(self):
        if self.n < 2 or self.sxx == 0:
            return None
        return (self.sy - self.sx * self.slope()) / self.n

    def corr(self):
        if self.n < 2 or self.sxx == 0 or self.syy == 0:
            return None
        s = fsqrt(self.sxx * self.syy)
        return self.sxy / s


def dedup_choices(pts, limit=16):
    """pts: [(ts, val)] any order. Yields the possible sequences in which, of several points with one
    timestamp, exactly one (any) is used."""
    by = {}
    for t, v in pts:
        by.setdefault(t, [])
        if v not in by[t]:
            by[t].append(v)
    seqs = [[]]
    for t in sorted(by):
        nx = []
        for s in seqs:
            for v in by[t]:
                nx.append(s + [(t, v)])
        seqs = nx
        if len(seqs) > limit:
            raise ValueError("too many choices")
    return seqs


class Metric:
    """reference for counter_agg (counter=True) and gauge_agg"""

    def __init__(self, seq, counter):
        self.seq, self.counter = seq, counter
        self.n = len(seq)
        self.resets, self.changes = 0, 0
        self.reset_sum = F(0)
        adj = []
        prev = None
        for t, v in seq:
            if prev is not None:
                if counter and v < prev:
                    self.resets += 1
                    self.reset_sum += F(prev)
                if v != prev:
                    self.changes += 1
            adj.append((F(t, US), F(v) + self.reset_sum))
            prev = v
        self.adj = adj
        self.first, self.last = seq[0], seq[-1]
        self.mag = max(abs(F(v)) for _, v in seq) + abs(self.reset_sum)

    def delta(self):
        return F(self.last[1]) + self.reset_sum - F(self.first[1])

    def time_delta(self):
        return F(self.last[0] - self.first[0], US)

    def rate(self):
        return None if self.n == 1 else self.delta() / self.time_delta()

    def _id(self, a, b):
        # pinned by the existing tests for gauges too: a decrease yields the later value
        return F(b[1]) - F(a[1]) if b[1] >= a[1] else F(b[1])

    def idelta_left(self):
        return F(0) if self.n == 1 else self._id(self.seq[0], self.seq[1])

    def idelta_right(self):
        return F(0) if self.n == 1 else self._id(self.seq[-2], self.seq[-1])

    def irate_left(self):
        return None if self.n == 1 else self.idelta_left() / F(self.seq[1][0] - self.seq[0][0], US)

    def irate_right(self):
        return None if self.n == 1 else self.idelta_right() / F(self.seq[-1][0] - self.seq[-2][0], US)

    def prom_delta(self, lo, hi):
        """bounds [lo, hi) in microseconds"""
        if self.n == 1 or lo == hi:
            return None
        r = self.delta()
        to_start = F(self.first[0] - lo, US)
        to_end = F(hi - self.last[0] - 1000, US)
        samp = self.time_delta()
        avg = samp / (self.n - 1)
        self.prom_margin = []  # distances from the branch points, relative
        if r > 0 and self.first[1] >= 0:
            z = samp * (F(self.first[1]) / r)
            self.prom_margin.append(abs(z - to_start))
            if z < to_start:
                to_start = z
        thr = avg * F(1.1)
        ext = samp
        self.prom_margin.append(abs(to_start - thr))
        self.prom_margin.append(abs(to_end - thr))
        ext += to_start if to_start < thr else avg / 2
        ext += to_end if to_end < thr else avg / 2
        self.prom_fuzzy = any(m < samp * F(1e-9) for m in self.prom_margin)
        return r * ext / samp

    def prom_rate(self, lo, hi):
        d = self.prom_delta(lo, hi)
        if d is None:
            return None
        dur = hi - lo - 1000
        if dur <= 0:
            return None
        return d / F(dur, US)


def interp(a, b, t):
    return F(a[1]) + (F(b[1]) - F(a[1])) * F(t - a[0], b[0] - a[0])


class V:
    """a value with an absolute error bound, both rational"""
    __slots__ = ("v", "e")

    def __init__(self, v, e=0):
        self.v, self.e = F(v), F(e)

    @staticmethod
    def of(x):
        return x if isinstance(x, V) else V(x)

    def __add__(self, o):
        o = V.of(o)
        return V(self.v + o.v, self.e + o.e)

    def __sub__(self, o):
        o = V.of(o)
        return V(self.v - o.v, self.e + o.e)

    def __mul__(self, o):
        o = V.of(o)
        return V(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e)

    def sure(self):
        """bounded well away from zero"""
        return abs(self.v) > 1000 * self.e and self.v != 0

    def __truediv__(self, o):
        o = V.of(o)
        lo = abs(o.v) - o.e
        return V(self.v / o.v, (self.e + abs(self.v / o.v) * o.e) / lo)

    def sqrt(self):
        r = fsqrt(self.v)
        return V(r, self.e / r + r * F(1, 2 ** 60) if r else fsqrt(self.e))

    def pow(self, k):
        r = V(1)
        for _ in range(k):
            r = r * self
        return r

    def ok(self, got, slack=F(1, 2 ** 44)):
        if got is None or not isfin(got):
            return abs(self.v) + self.e > F(10) ** 300
        return abs(F(got) - self.v) <= self.e + abs(self.v) * slack + F(5e-324) * 4


class Mom:
    """exact central moments of finite values, with the error an f64 evaluation may have made.
    hist: the values that also went through the state (and were taken out again), eps: working precision"""

    def __init__(self, xs, hist=None, eps=EPS, steps=0):
        n = self.n = len(xs)
        xs = [F(x) for x in xs]
        allx = [F(x) for x in hist] if hist is not None else xs
        self.s = sum(xs, F(0))
        if not n:
            return
        m = self.s / n
        d = [x - m for x in xs]
        self.d = d
        M = max(abs(x) for x in allx)
        D = max([abs(x - m) for x in allx] + [F(0)])
        N = max(n, len(allx) if hist is not None else 0)
        k = F(eps) * (N + 8 + steps) * 16
        own = F(EPS) * (n + 8) * 16
        self.D = D
        self.delta = k * (M + D) + own * (max(abs(x) for x in xs) + max(abs(x) for x in d))
        dl = self.delta
        self.S = [None, None]
        for p in (2, 3, 4):
            v = sum((x ** p for x in d), F(0))
            e = N * (p + 1) * (D + dl) ** (p - 1) * dl + N * k * p * D ** p + N * own * p * max(abs(x) for x in d) ** p
            self.S.append(V(v, e))
        self.sum = V(self.s, k * N * M + own * n * max(abs(x) for x in xs))

    def cross(self, o):
        v = sum((a * b for a, b in zip(self.d, o.d)), F(0))
        e = self.n * (self.D * o.delta + o.D * self.delta + self.delta * o.delta) * 4
        return V(v, e)

    def var(self, samp):
        return self.S[2] / (self.n - (1 if samp else 0))

    def skew(self, samp):
        if not self.S[2].sure():
            return None
        return self.S[3] / (self.n - samp) / self.var(samp).sqrt().pow(3)

    def kurt(self, samp):
        if not self.S[2].sure():
            return None
        return self.S[4] / (self.n - samp) / self.var(samp).sqrt().pow(4)
