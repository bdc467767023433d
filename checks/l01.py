"""lttb: first and last point, and from every bucket in between the point of the largest triangle."""
import json
from fractions import Fraction as F
from run import SqlWorker
from pg import *
import gen

ID = "L01"
QUICK, THOROUGH = 900, 15000
RULE = ("seeded series of 1..200 and of 12000..40000 points (random, periodic, spiked, constant, tied times; present and far-future times), resolutions 3..n+5, as aggregate over any "
        "order with NULLs, on timevectors (with NULL points) and as pipeline element; every chosen point's triangle recomputed; distinct = distinct outputs")
ASSUMPTIONS = ["finite values", "of points whose triangles are equal up to rounding any may be chosen"]
MUST_OBSERVE = ["aggregate", "timevector", "pipeline", "triangles", "whole_series", "large_buckets", "far_times", "tied_times", "null_points", "low_resolution_refused"]


def triangles(rec, pts, out, k):
    """pts: sorted input [(t,v)], out: the output for threshold k < len(pts)"""
    n = len(pts)
    if len(out) != k:
        return "%d points, expected %d" % (len(out), k)
    if out[0] != pts[0] or out[-1] != pts[-1]:
        return "the ends %s, %s are not the first and last point" % (out[0], out[-1])
    ev, evf = F(n - 2, k - 2) if k > 2 else None, (n - 2) / (k - 2) if k > 2 else None

    def edge(i):
        a, b = int(i * ev) + 1, int(i * evf) + 1
        return a if a == b else None
    a = pts[0]
    for i in range(k - 2):
        lo, mid, hi = edge(i), edge(i + 1), edge(i + 2) if i < k - 3 else n
        if None in (lo, mid, hi):
            rec.count("rounded_edges")
            a = out[i + 1]
            continue
        hi = min(hi, n)
        if i == k - 3:
            mid = n - 1
        nxt = pts[mid:hi]
        cx = sum(p[0] for p in nxt) // len(nxt)
        cy = sum(p[1] for p in nxt) / len(nxt)
        ym = max(abs(p[1]) for p in nxt)
        dx = float(a[0] - cx)

        def area(p):
            u, w = dx * (p[1] - a[1]), float(a[0] - p[0]) * (cy - a[1])
            err = (abs(dx) + abs(a[0] - p[0])) * (abs(p[1]) + abs(a[1]) + ym) * (1e-14 + 2e-16 * len(nxt)) + 2 * abs(p[1] - a[1]) + 2 * abs(a[0] - p[0]) * 2.3e-308
            return abs(u - w), err
        b = pts[lo:mid]
        if out[i + 1] not in b:
            return "point %d, %s, is not in its bucket [%d, %d)" % (i + 1, out[i + 1], lo, mid)
        got, ge = area(out[i + 1])
        best, be, bp = max((area(p) + (p,) for p in b), key=lambda x: x[0])
        if got + ge < best - be:
            return "point %d, %s, spans a triangle of %g, but %s one of %g" % (i + 1, out[i + 1], got / 2, bp, best / 2)
        rec.count("triangles")
        a = out[i + 1]
    return None


def curve(r, n, ts):
    kind = r.choice(["random", "sine", "spike", "const", "steps", "walk"])
    import math
    if kind == "random":
        return gen.floats(r, n)
    if kind == "sine":
        f = r.uniform(1, 10)
        return [10 + 5 * math.sin(i * f / n) for i in range(n)]
    if kind == "const":
        return [3.5] * n
    v = [0.0] * n
    if kind == "spike":
        for _ in range(r.randint(1, 5)):
            v[r.randrange(n)] = r.uniform(-100, 100)
        return v
    x = 0.0
    for i in range(n):
        x += r.choice([0, 0, 0, r.uniform(-5, 5)]) if kind == "steps" else r.gauss(0, 1)
        v[i] = x
    return v


def arr_rel(pts):
    """(o, t, v) rows as a compact relation"""
    b = min(p[0] for p in pts)
    return ("(SELECT o, %s + t * interval '1 us' t, v FROM unnest('{%s}'::float8[], '{%s}'::float8[]) WITH ORDINALITY u(t,v,o)) d"
            % (ts_lit(b), ",".join(str(p[0] - b) for p in pts), ",".join("NULL" if p[1] is None else repr(p[1]) for p in pts)))


def val_rel(pts):
    return "(VALUES %s) d(o,t,v)" % ",".join("(%d,%s,%s)" % (i, ts_lit(t), "NULL::float8" if v is None else f_lit(v)) for i, (t, v) in enumerate(pts))


OUT = "(SELECT string_agg((extract(epoch from u.time - %s)*1000000)::bigint || '|' || u.value, ';' ORDER BY o) FROM (SELECT row_number() OVER () o, x.* FROM unnest(a) x) u)"


def parse_out(s, base):
    return [(int(x.split("|")[0]) + base, f_parse(x.split("|")[1])) for x in s.split(";")] if s else []


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        big = r.random() < .015
        n = r.randint(26000, 40000) if big else r.choice([1, 2, 3, 4] + [r.randint(3, 30), r.randint(20, 200)] * 4)
        far = not big and r.random() < .25
        base = r.randint(7 * 10 ** 14, 9 * 10 ** 14) if big else r.randint(10 ** 17, 8 * 10 ** 18) if far else None
        ts = gen.times(r, n, r.choice(["s", "ms", "reg"]) if big or far else None, base)
        if far:
            rec.count("far_times")
        if r.random() < .1 and not big:
            rec.count("tied_times")
            for i in range(1, n):
                if r.random() < .3:
                    ts[i] = ts[i - 1]
        pts = list(zip(ts, curve(r, n, ts)))
        k = r.randint(3, 4) if big else r.choice([3, 4, 5, max(3, n // 2), max(3, n - 1), n, n + 1] + [r.randint(3, max(3, n))] * 5)
        k = max(k, 3)
        form = r.choice(["aggregate", "timevector", "pipeline"])
        rec.count(form)
        if big:
            rec.count("large_buckets")
        rows = list(pts)
        if form == "aggregate":
            if len(set(ts)) == n:
                r.shuffle(rows)
            for _ in range(r.choice([0, 0, 3])):
                rows.insert(r.randint(0, len(rows)), (r.choice(ts), None))
            rel = arr_rel(rows) if big else val_rel(rows)
            q = "SELECT lttb(t,v,%d) a FROM %s" % (k, rel)
        else:
            rel = arr_rel(rows) if big else val_rel(rows)
            f = "lttb(tv,%d)" % k if form == "timevector" else "tv -> toolkit_experimental.lttb(%d)" % k
            q = "SELECT %s a FROM (SELECT timevector(t,v ORDER BY t,o) tv FROM %s) z" % (f, rel)
        got = self.Q(rec, "WITH s AS MATERIALIZED (%s) SELECT %s FROM s" % (q, OUT % ts_lit(ts[0])))[0][0]
        out = parse_out(got, ts[0])
        what = "lttb (%s) of %d points to %d" % (form, n, k)
        if k >= n:
            rec.count("whole_series")
            bad = None if out == pts else "not the series itself: %s" % (out[:6],)
        else:
            bad = triangles(rec, pts, out, k)
        if bad:
            rec.fail("lttb", "%s: %s" % (what, bad))
        if n > 3:
            rec.seen(out[:50])
        if idx < 4:
            rec.sample = "%s -> %s" % (what, out[:4])
        if r.random() < .1 and 3 <= n <= 200 and len(set(ts)) == n:
            # NULL points of a timevector stay points of the result, and stay NULL
            rec.count("null_points")
            rows = [(t, None if r.random() < .3 else v) for t, v in pts]
            k = r.randint(3, n + 1)
            f = r.choice(["lttb(tv,%d)", "tv -> toolkit_experimental.lttb(%d)"]) % k
            got = self.Q(rec, "WITH s AS MATERIALIZED (SELECT %s a FROM (SELECT timevector(t,v ORDER BY t) tv FROM %s) z) SELECT toolkit_experimental.to_text(a, '{{TIMEVALS}}'), a::text FROM s" % (f, val_rel(rows)))
            g = json.loads(got[0][0])
            src = dict(rows)
            for x in g:
                w = src.get(ts_parse(x["time"]), "no point")
                if (x["val"] is None) != (w is None) or (w is not None and x["val"] != w):
                    rec.fail("lttb:null-points", "%s of a timevector with NULLs has %s, the series has %s" % (f, x, w))
                    break
            if len(g) != min(k, n):
                rec.fail("lttb:null-points", "%d points from %s of %d" % (len(g), f, n))
        if r.random() < .03:
            rec.count("low_resolution_refused")
            x, e = self.err(rec, "SELECT lttb(t,v,%d) FROM %s" % (r.choice([2, 1, 0, -1, -2147483648]), val_rel(pts[:50])))
            if e is None:
                rec.fail("lttb:resolution", "a resolution below 3 was accepted: %s" % rec.stmts[-1][:60])
