"""Timevector pipeline elements: their SQL and what they do to a series, for the checks on pipelines.
A series is a list of (time, value, is_null); the stored value of a NULL is NaN until something maps it."""
import math
from pg import *

NAN, INF = float("nan"), float("inf")


class Refused(Exception):
    pass


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * math.copysign(1, b)
    return a / b


def fmod(a, b):
    if b == 0 or a in (INF, -INF) or a != a or b != b:
        return NAN
    return math.fmod(a, b)


def fpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return -INF if a < 0 and b == int(b) and int(b) % 2 else INF
    except ValueError:
        if a == 0:
            return math.copysign(INF, a) if b == int(b) and int(b) % 2 else INF
        return NAN


def fln(a):
    return NAN if a < 0 or a != a else -INF if a == 0 else math.log(a)


def fround(a):
    if a != a or abs(a) == INF or abs(a) >= 2 ** 52:
        return a
    f = math.floor(abs(a))
    return math.copysign(f + (abs(a) - f >= .5), a)


def fint(fn):
    return lambda a: a if a != a or abs(a) == INF else math.copysign(float(fn(a)), a) if fn(a) == 0 else float(fn(a))


def fmul(a, b):
    return a * b


UN = {  # name: (function, inexact, discontinuous)
    "abs": (abs, 0, 0), "cbrt": (lambda a: a if a != a or abs(a) == INF else math.cbrt(a), 1, 0), "ceil": (fint(math.ceil), 0, 1), "floor": (fint(math.floor), 0, 1),
    "ln": (fln, 1, 0), "log10": (lambda a: NAN if a < 0 or a != a else -INF if a == 0 else math.log10(a), 1, 0), "round": (fround, 0, 1),
    "sign": (lambda a: a if a != a else math.copysign(1.0, a), 0, 1),
    "sqrt": (lambda a: NAN if a < 0 or a != a else math.sqrt(a), 0, 0), "trunc": (fint(math.trunc), 0, 1),
}
BI = {
    "add": (lambda a, b: a + b, 0, 0), "sub": (lambda a, b: a - b, 0, 0), "mul": (fmul, 0, 0), "div": (fdiv, 0, 0),
    "mod": (fmod, 0, 1), "power": (fpow, 1, 0), "logn": (lambda a, b: fdiv(fln(a), fln(b)), 1, 0),
}
X = "toolkit_experimental."


def is_sorted(s):
    return all(a[0] <= b[0] for a, b in zip(s, s[1:]))


def no_nulls(s):
    return not any(p[2] for p in s)


def fill(s, iv, how):
    if not is_sorted(s) or not no_nulls(s):
        raise Refused
    out = []
    for a, b in zip(s, s[1:]):
        out.append(a)
        t = a[0] + iv
        while t < b[0]:
            if how == "locf":
                v = a[1]
            elif how == "nearest":
                v = a[1] if b[0] - t >= t - a[0] else b[1]
            else:
                w = (t - a[0]) / (b[0] - a[0])
                v = a[1] * (1 - w) + b[1] * w
            out.append((t, v, False))
            t += iv
    return out + s[-1:]


def delta(s):
    if not is_sorted(s) or not no_nulls(s):
        raise Refused
    return [(b[0], b[1] - a[1], False) for a, b in zip(s, s[1:])]


def num(r):
    return r.choice([0.0, 1.0, -1.0, 2.0, .5, 10.0, 3.0, float(r.randint(-9, 9)), round(r.uniform(-100, 100), 3)])


def lam(x):
    return repr(x)


def element(r, s, inexact, kinds=None):
    """-> (kind, sql, function over series, inexact afterwards)"""
    kind = r.choice(kinds or ["unary", "unary", "binary", "binary", "map", "map_time", "map_data", "map_series", "filter", "filter", "sort", "sort", "delta", "fill_to"])
    if kind in ("unary", "binary"):
        tab = UN if kind == "unary" else BI
        # after an inexact step only what cannot blow up its error
        n = r.choice([k for k in tab if not inexact or k in ("abs", "add", "sub", "mul")])
        if n == "sign" and any(p[1] == 0 for p in s):
            n = "abs"
        f, i, _ = tab[n]
        if kind == "unary":
            return n, X + n + "()", lambda s: [(t, f(v), z) for t, v, z in s], inexact or i
        c = num(r)
        return n, "%s%s(%s)" % (X, n, f_lit(c)), lambda s: [(t, f(v, c), z) for t, v, z in s], inexact or i
    if kind == "map":
        a, b = num(r), num(r)
        q = r.choice([("$value * %s + %s" % (lam(a), lam(b)), lambda v: v * a + b), ("let $x = $value - %s; $x * $x" % lam(a), lambda v: (v - a) * (v - a)), ("%s" % lam(a), lambda v: a),
                      ("abs($value) - %s" % lam(b), lambda v: abs(v) - b)])
        return "map", X + "map($$ %s $$)" % q[0], lambda s: [(t, q[1](v), z) for t, v, z in s], inexact
    if kind == "map_time":
        d, k = r.choice([1, -1, 60, 3600, -86400]), r.randint(-3, 3)
        if r.random() < .5:
            # a shift by the value reorders the times
            return "map_time", X + "map($$ ($time + '%d seconds'i * round(abs($value) ^ 0.0 * %s), $value) $$)" % (d, lam(float(k))), \
                lambda s: [(t + d * k * US, v, z) for t, v, z in s], inexact
        c = num(r)
        far = r.randint(-10 ** 15, 10 ** 15)
        if r.random() < .3:
            return "map_time", X + "map($$ ('%s't, $value + %s) $$)" % (ts_text(far), lam(c)), lambda s: [(far, v + c, z) for t, v, z in s], inexact
        return "map_time", X + "map($$ ($time - '%d seconds'i, $value + %s) $$)" % (d, lam(c)), lambda s: [(t - d * US, v + c, z) for t, v, z in s], inexact
    if kind == "map_flip":
        # value-dependent shift: values are small integers here
        d = r.choice([1, 3600, -86400 * 30])
        return "map_flip", X + "map($$ ($time + '%d seconds'i * $value, $value) $$)" % d, lambda s: [(t + int(v * d * US), v, z) for t, v, z in s], inexact
    if kind == "map_data":
        return "map_data", X + "map_data('vp_affine')", lambda s: [(t, v * 3 - 1, z) for t, v, z in s], inexact
    if kind == "map_series":
        return "map_series", X + "map_series('vp_series')", lambda s: [(t, v + 1, z) for t, v, z in s], inexact
    if kind == "filter":
        c = num(r)
        t0 = r.choice(s)[0] if s else 0
        opts = [("$time > '%s't" % ts_text(t0), lambda t, v: t > t0), ("$time <= '%s't" % ts_text(t0), lambda t, v: t <= t0), ("$time = '%s't" % ts_text(t0), lambda t, v: t == t0), ("1 = 1", lambda t, v: True),
                ("1 != 1", lambda t, v: False)]
        if not inexact:
            c2 = r.choice([x[1] for x in s if x[1] == x[1] and abs(x[1]) < INF] or [c])
            opts += [("$value > %s" % lam(c2), lambda t, v: v > c2), ("not ($value >= %s)" % lam(c2), lambda t, v: not v >= c2), ("$value != %s" % lam(c2), lambda t, v: v != c2),
                     ("$value < %s and $time > '%s't" % (lam(c), ts_text(t0)), lambda t, v: v < c and t > t0), ("$value < %s or $time > '%s't" % (lam(c), ts_text(t0)), lambda t, v: v < c or t > t0)] * 2
        q, f = r.choice(opts)
        return "filter", X + "filter($$ %s $$)" % q, lambda s: [p for p in s if f(p[0], p[1])], inexact
    if kind == "sort":
        return "sort", X + "sort()", lambda s: sorted(s, key=lambda p: p[0]), inexact
    if kind == "delta":
        return "delta", "delta()", delta, inexact
    # fill_to
    gaps = [b[0] - a[0] for a, b in zip(s, s[1:]) if b[0] > a[0]]
    span = max([p[0] for p in s]) - min([p[0] for p in s]) if s else 0
    iv = max(1, span // 500, r.choice([r.choice(gaps or [US]), r.choice(gaps or [US]) // r.randint(1, 5), r.randint(1, max(1, span)), (span // max(1, len(s)))]))
    how = r.choice(["locf", "interpolate", "linear", "nearest", "LOCF", "Nearest"])
    return "fill_to", X + "fill_to(%s, '%s')" % (iv_lit(iv), how), lambda s: fill(s, iv, how.lower()), 1 if how in ("interpolate", "linear") else inexact


SETUP = """CREATE FUNCTION vp_affine(x double precision) RETURNS double precision LANGUAGE sql IMMUTABLE AS 'SELECT x * 3 - 1';
CREATE FUNCTION vp_null(x double precision) RETURNS double precision LANGUAGE plpgsql AS 'BEGIN IF x > 0 THEN RETURN NULL; END IF; RETURN x; END';
CREATE FUNCTION vp_raise(x double precision) RETURNS double precision LANGUAGE plpgsql AS 'BEGIN IF x > 0 THEN RAISE EXCEPTION ''positive''; END IF; RETURN x; END';
CREATE FUNCTION vp_series(x timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT x -> toolkit_experimental.add(1)';
CREATE FUNCTION vp_series_null(x timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT NULL::timevector_tstz_f64';"""
