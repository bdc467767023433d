"""two-variable stats_agg and rollup against exact moments and regression."""
from run import SqlWorker
from pg import *
import gen, orc
from orc import F
from checks import s01

ID = "S02"
QUICK, THOROUGH = 3000, 50000
RULE = ("seeded (y,x) rows (0..60, NULLs in either column, correlated, collinear, vertical and horizontal shapes), aggregated "
        "directly or per group and rolled up. A case counts when it has >= 2 complete pairs; distinct = distinct result vectors")
ASSUMPTIONS = ["a regression is compared only where the variance of its inputs is not lost to rounding"]
MUST_OBSERVE = ["direct", "rolled_up", "regressions_compared", "vertical", "horizontal", "half_null_rows", "overflow_refused"]

REG = ["slope(a)", "intercept(a)", "x_intercept(a)", "corr(a)", "covariance(a)", "covariance(a,'pop')", "determination_coeff(a)"]


def axis(c):
    return [x.replace("(a", "_%s(a" % c, 1) if not x.startswith("num") else x for x in s01.ACC]


ACC = axis("x") + axis("y") + REG
NX = len(s01.ACC)


def check2(got, pts, mx=None, my=None, inverse=False, rec=None):
    n = len(pts)
    xs, ys = [p[1] for p in pts], [p[0] for p in pts]
    bad = []
    one = n == 1
    gx, gy = list(got[:NX]), list(got[NX:2 * NX])
    mx, my = mx or orc.Mom(xs), my or orc.Mom(ys)
    for c, g, v, m in (("x", gx, xs, mx), ("y", gy, ys, my)):
        b = s01.check1(g, v, m if n else None, inverse)
        if b:
            bad.append(c + ": " + "; ".join(b[:3]))
    if bad:
        return bad
    g = [f_parse(x) for x in got[2 * NX:]]
    if n < 2:
        for i in (0, 1, 2, 3, 4, 6):
            if g[i] is not None:
                bad.append("%s of %d points = %s, expected NULL" % (REG[i], n, g[i]))
        if n == 1 and g[5] != 0 and not (inverse and g[5] is not None):
            bad.append("%s of one point = %s, expected 0" % (REG[5], g[5]))
        return bad

    def num(i, w):
        if rec:
            rec.count("regressions_compared")
        if not w.ok(g[i]):
            bad.append("%s = %s, expected %r +- %.1e" % (REG[i], g[i], float(w.v), float(w.e)))
    sxy = mx.cross(my)
    num(4, sxy / (n - 1))
    num(5, sxy / n)
    exact = not inverse and all(float(v).is_integer() and abs(v) < 2 ** 24 for v in xs + ys)
    vert, hor = mx.S[2].v == 0, my.S[2].v == 0
    if vert and exact:
        if rec:
            rec.count("vertical")
        if any(g[i] is not None for i in (0, 1, 3, 6)) or g[2] != xs[0]:
            bad.append("a vertical line has %s" % dict(zip(REG, g)))
        return bad
    if hor and exact:
        if rec:
            rec.count("horizontal")
        if g[0] != 0 or g[1] != ys[0] or g[2] is not None or g[3] is not None or g[6] != 1:
            bad.append("a horizontal line has %s" % dict(zip(REG, g)))
        return bad
    if mx.S[2].sure():
        sl = sxy / mx.S[2]
        num(0, sl)
        ic = (my.sum - mx.sum * sl) / n
        num(1, ic)
        if sl.sure():
            num(2, V0(ic) / sl)
        if my.S[2].sure():
            num(3, sxy / (mx.S[2] * my.S[2]).sqrt())
            num(6, sxy * sxy / (mx.S[2] * my.S[2]))
    return bad


def V0(x):
    return orc.V(-x.v, x.e)


def shape(r, n):
    k = r.choice(["random", "line", "line", "noisy", "vertical", "horizontal", "ints", "far"])
    xs = gen.floats(r, n, r.choice(["small", "int", "wide", "unit"]))
    a, b = r.uniform(-5, 5), r.uniform(-100, 100)
    if k == "random":
        ys = gen.floats(r, n)
    elif k == "line":
        ys = [a * x + b for x in xs]
    elif k == "noisy":
        ys = [a * x + b + r.gauss(0, 1) for x in xs]
    elif k == "vertical":
        xs = [float(r.randint(-50, 50))] * n
        ys = gen.floats(r, n, "int")
    elif k == "horizontal":
        ys = [float(r.randint(-50, 50))] * n
        xs = gen.floats(r, n, "int")
    elif k == "ints":
        xs, ys = gen.floats(r, n, "int"), gen.floats(r, n, "int")
    else:
        xs = [1e6 + x for x in gen.floats(r, n, "small")]
        ys = [a * x - 1e5 + r.gauss(0, 3) for x in xs]
    return list(zip(ys, xs))


class Worker(SqlWorker):
    def overflow(self, r, rec):
        """moments that can not be represented are refused"""
        n = r.randint(2, 5)
        big = [r.choice([1, -1]) * 10.0 ** r.uniform(80, 300) for _ in range(n)]
        tame = [r.choice([0.0, r.uniform(-5, 5)]) for _ in range(n)]
        ys, xs = r.choice([(big, tame), (tame, big), (big, big)])
        part = r.random() < .5
        src = "unnest(ARRAY[%s]::float8[], ARRAY[%s]::float8[]) WITH ORDINALITY d(y,x,o)" % (",".join(map(f_lit, ys)), ",".join(map(f_lit, xs)))
        q = "SELECT stats_agg(y,x) a FROM " + src
        if part:
            q = "SELECT rollup(a) a FROM (%s GROUP BY o) p" % q
        res, e = self.err(rec, "SELECT a::text FROM (%s) s" % q)
        if e is None:
            if s01.unrepresentable(big, res[0][0]):
                rec.fail("stats_agg2:overflow", "moments of y=%s, x=%s can not be represented, but there was no error: %s" % (ys, xs, str(res)[:200]))
        elif e.code != "22003":
            rec.fail("stats_agg2:overflow-error", "unexpected error %s" % e)
        else:
            rec.count("overflow_refused")

    def case(self, r, idx, rec):
        if idx % 33 == 5:
            self.overflow(r, rec)
            return
        n = r.choice([0, 1, 2, 3, r.randint(4, 20), r.randint(4, 60)])
        pts = shape(r, n)
        rows = list(pts)
        for _ in range(r.choice([0, 0, 1, 3])):
            rows.append(r.choice([(None, 1.0), (2.0, None), (None, None)]))
            rec.count("half_null_rows")
        if not rows:
            rows = [(None, 1.0)]
        r.shuffle(rows)
        vals = rows_values([(str(r.randint(0, 5)), f_lit(y), f_lit(x)) for y, x in rows], 3)
        if r.random() < .5:
            q = "SELECT %s FROM (SELECT stats_agg(y,x) a FROM %s d(g,y,x)) s" % (",".join(ACC), vals)
            rec.count("direct")
        else:
            inner = "SELECT g, stats_agg(y,x) a FROM %s d(g,y,x) GROUP BY g" % vals
            if r.random() < .4:
                inner = "SELECT g%%2 g, rollup(a) a FROM (%s) q GROUP BY g%%2" % inner
            if r.random() < .3:
                inner += " UNION ALL SELECT 99, NULL"
            q = "SELECT %s FROM (SELECT %s(a) a FROM (%s) p) s" % (",".join(ACC), r.choice(["rollup", "rollup", "rolling"]), inner)
            rec.count("rolled_up")
        got = self.Q(rec, q)[0]
        if got[0] is None:
            rec.fail("stats_agg2:null", "stats_agg of %d pairs is NULL" % n)
            return
        bad = check2(got, pts, rec=rec)
        if bad:
            rec.fail("stats_agg:2d", "stats_agg of %d pairs: %s" % (n, "; ".join(bad[:5])))
        if n > 1:
            rec.seen(got)
        if idx < 4:
            rec.sample = "stats_agg of pairs %s -> slope %s" % (pts[:3], got[2 * NX])
