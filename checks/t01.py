"""timevector: exactly the points it was given."""
import json, re
from run import SqlWorker
from pg import *
from parts import Parts
import gen
from gen import US

ID = "T01"
QUICK, THOROUGH = 1000, 15000
RULE = ("seeded rows of 0..120 points (sorted, shuffled, reversed, tied, around multiples of 8; NULL times and values; NaN and infinite values), built in one go, rolled up from pieces "
        "in any order (empty and all-NULL pieces included), combined from partial aggregates, stored and read back; read through unnest, text, num_vals, to_text, to_plotly and asof; "
        "distinct = distinct texts")
ASSUMPTIONS = ["asof inputs are sorted, as its documentation requires"]
MUST_OBSERVE = ["built", "rollup", "partial", "stored", "null_points", "sorted", "unsorted", "formatted", "refused_nonfinite", "asof", "asof_before_first", "empty_piece", "no_rows"]

PGEPOCH_US = PG_EPOCH_DAYS * 86400 * US
PT = re.compile(r'\(ts:"([^"]+)",val:([^,()]+)\)')


def parse_tv(s):
    """-> (points [(ts, value)], null set, sorted flag) of a timevector's text"""
    m = re.fullmatch(r"\(version:1,num_points:(\d+),flags:(\d+),internal_padding:\(0,0,0\),points:\[(.*)\],null_val:\[([\d,]*)\]\)", s)
    if not m:
        raise ValueError(s[:300])
    pts = [(ts_parse(a), f_parse(b)) for a, b in PT.findall(m[3])]
    bits = [int(x) for x in m[4].split(",")] if m[4] else []
    nulls = {i for i in range(len(bits) * 8) if bits[i // 8] >> (i % 8) & 1}
    if len(pts) != int(m[1]):
        raise ValueError("%s points in %s" % (m[1], s[:300]))
    if int(m[2]) & ~3:
        raise ValueError("flags %s" % m[2])
    if bool(nulls) and not int(m[2]) & 2:
        raise ValueError("null bits without the flag: %s" % s[:300])
    return pts, nulls, bool(int(m[2]) & 1)


def same_val(a, b):
    return a == b or (a != a and b != b)


def tv_bad(got, rows):
    """rows [(ts, value or None)] in order; checks the text form got"""
    pts, nulls, srt = parse_tv(got)
    if len(pts) != len(rows):
        return "%d points, expected %d" % (len(pts), len(rows))
    for i, (p, w) in enumerate(zip(pts, rows)):
        if p[0] != w[0] or (w[1] is not None and not same_val(p[1], w[1])):
            return "point %d is %s, expected %s" % (i, p, w)
    want = {i for i, w in enumerate(rows) if w[1] is None}
    if nulls != want:
        return "the NULL points are %s, expected %s" % (sorted(nulls), sorted(want))
    t = [w[0] for w in rows]
    if srt != (t == sorted(t)):
        return "sorted flag %s" % srt
    return None


def gen_rows(r, rec, n, special=True):
    ts = gen.times(r, n)
    if n and r.random() < .2:
        for i in range(1, n):
            if r.random() < .3:
                ts[i] = ts[i - 1]
    elif n > 20 and r.random() < .3:
        some = ts[:r.randint(1, 9)]  # every time is shared by many points
        ts = [r.choice(some) for _ in ts]
    pn = r.choice([0, 0, .1, .5, 1])
    vs = gen.floats(r, n)
    rows = [(t, None if r.random() < pn else v) for t, v in zip(ts, vs)]
    if special and r.random() < .2:
        rows = [(t, r.choice([float("nan"), float("inf"), float("-inf"), -0.0, 5e-324, v]) if v is not None else None) for t, v in rows]
    o = r.random()
    if o < .3:
        r.shuffle(rows)
    elif o < .4:
        rows.reverse()
    elif o < .5 and n > 1:
        i = r.randrange(n - 1)
        rows[i], rows[i + 1] = rows[i + 1], rows[i]
    return rows


def lit(x):
    return "%s,%s" % ("NULL::timestamptz" if x[0] is None else ts_lit(x[0]), "NULL::float8" if x[1] is None else f_lit(x[1]))


def rel(rows, cols="o,t,v"):
    return "(VALUES %s) d(%s)" % (",".join("(%d,%s)" % (i, lit(x)) for i, x in enumerate(rows)), cols)


class Worker(SqlWorker):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.p = Parts(self, "t01", "t timestamptz, v float8")

    def case(self, r, idx, rec):
        n = r.choice([1, 2, 7, 8, 9, 15, 16, 17, r.randint(1, 40), r.randint(1, 120)])
        rows = gen_rows(r, rec, n)
        rec.count("null_points", sum(x[1] is None for x in rows))
        what = r.choice(["build", "rollup", "rollup", "partial", "asof", "format"])
        getattr(self, what)(r, rec, rows, idx)

    def judge(self, rec, got, rows, what, order=True):
        if not order:
            pts, nulls, srt = parse_tv(got)
            a = sorted((p[0], i in nulls, 0 if i in nulls else repr(p[1])) for i, p in enumerate(pts))
            b = sorted((w[0], w[1] is None, 0 if w[1] is None else repr(w[1])) for w in rows)
            t = [p[0] for p in pts]
            bad = "the points (with NULL flags) are %s, expected %s" % ([x for x in a if x not in b][:4], [x for x in b if x not in a][:4]) if a != b else \
                "sorted flag %s on times %s" % (srt, t[:8]) if srt and t != sorted(t) else None
        else:
            bad = tv_bad(got, rows)
            t = [w[0] for w in rows]
            rec.count("sorted" if t == sorted(t) else "unsorted")
        if bad:
            rec.fail("timevector:" + what.split(" ")[0], "%s of %d rows: %s" % (what, len(rows), bad))
        rec.seen(got)

    def build(self, r, rec, rows, idx):
        rec.count("built")
        raw = list(rows)
        for _ in range(r.choice([0, 0, 2])):
            raw.insert(r.randint(0, len(raw)), (None, r.choice([None, 1.5])))
        store = r.random() < .4
        q = "SELECT timevector(t,v ORDER BY o) tv FROM %s" % rel(raw)
        if store:
            rec.count("stored")
            self.Q(rec, "DROP TABLE IF EXISTS t01s; CREATE TEMP TABLE t01s AS " + q)
            q = "SELECT tv FROM t01s"
        got = self.Q(rec, "WITH s AS MATERIALIZED (%s) SELECT tv::text, toolkit_experimental.num_vals(tv), (SELECT string_agg((extract(epoch from u.time)*1000000)::bigint || '|' || u.value, ';' ORDER BY o) "
                          "FROM (SELECT row_number() OVER () o, x.* FROM unnest(tv) x) u), tv::text = (tv::text::timevector_tstz_f64)::text FROM s".replace(
                              "toolkit_experimental.num_vals(tv)", "tv -> num_vals()") % q)[0]
        self.judge(rec, got[0], rows, "build")
        if int(got[1]) != len(rows):
            rec.fail("timevector:num_vals", "num_vals of %d points is %s" % (len(rows), got[1]))
        u = [(int(a) - PGEPOCH_US, f_parse(b)) for a, b in (x.split("|") for x in got[2].split(";"))]
        for a, b in zip(u, rows):
            if a[0] != b[0] or not same_val(a[1], float("nan") if b[1] is None else b[1]):
                rec.fail("timevector:unnest", "unnest gives %s for %s" % (a, b))
                break
        if len(u) != len(rows):
            rec.fail("timevector:unnest", "unnest gives %d rows for %d points" % (len(u), len(rows)))
        if got[3] != "t":
            rec.fail("timevector:text", "the text form does not read back as itself: %s" % got[0][:500])
        if r.random() < .1:
            rec.count("no_rows")
            g = self.Q(rec, "SELECT timevector(t,v) IS NULL, (SELECT rollup(x) IS NULL FROM (SELECT NULL::timevector_tstz_f64 x) y) FROM %s WHERE t IS NULL" % rel(raw + [(None, 1.0)]))[0]
            if g != ("t", "t") and list(g) != ["t", "t"]:
                rec.fail("timevector:no_rows", "a timevector of no points is not NULL: %s" % (g,))
        if idx < 3:
            rec.sample = got[0]

    def rollup(self, r, rec, rows, idx):
        rec.count("rollup")
        k = r.randint(1, 5)
        cuts = sorted(r.randint(0, len(rows)) for _ in range(k - 1))
        pieces = [rows[a:b] for a, b in zip([0] + cuts, cuts + [len(rows)])]
        sel = []
        for i, p in enumerate(pieces):
            if p:
                sel.append("SELECT %d k, (SELECT timevector(t,v ORDER BY o) FROM %s) tv" % (i, rel(p)))
            else:
                rec.count("empty_piece")
                sel.append(r.choice(["SELECT %d k, NULL::timevector_tstz_f64 tv",
                                     "SELECT %d k, timevector('2020-01-01+00'::timestamptz, 1) -> toolkit_experimental.filter('$value > 2') tv"]) % i)
        if r.random() < .3:
            rec.count("stored")
            self.Q(rec, "DROP TABLE IF EXISTS t01s; CREATE TEMP TABLE t01s AS " + " UNION ALL ".join(sel))
            src = "t01s"
        else:
            src = "(%s) s" % " UNION ALL ".join(sel)
        got = self.Q(rec, "SELECT rollup(tv ORDER BY k)::text FROM " + src)[0][0]
        self.judge(rec, got, rows, "rollup of %s" % [len(p) for p in pieces])

    def partial(self, r, rec, rows, idx):
        nested = r.random() < .4
        m = {}
        np_ = r.choice([1, 2, 4])
        put = [(r.randrange(np_), x) for x in rows]
        self.p.load(rec, [(a, lit(x)) for a, x in put])
        if nested:
            # every partition holds timevectors
            q = "SELECT rollup(tv)::text FROM t01v"
            self.pv()
            sel = []
            for a in range(np_):
                mine = [x for b, x in put if a == b]
                while mine:
                    j = r.randint(1, len(mine))
                    sel.append("(%d,(SELECT timevector(t,v ORDER BY o) FROM %s))" % (a, rel(mine[:j])))
                    mine = mine[j:]
            self.Q(rec, "TRUNCATE t01v; INSERT INTO t01v VALUES " + ",".join(sel))
        else:
            q = "SELECT timevector(t,v)::text FROM t01"
        if self.p.is_partial(rec, q):
            rec.count("partial")
        got = self.Q(rec, q)[0][0]
        self.judge(rec, got, rows, "partial %s" % ("rollup" if nested else "build"), order=False)

    def pv(self):
        if getattr(self, "pvc", None) is not self.conn:
            self.pvc = self.conn
            q = "CREATE TEMP TABLE t01v(part int, tv timevector_tstz_f64) PARTITION BY LIST(part); "
            for i in range(4):
                q += "CREATE TEMP TABLE t01v_%d PARTITION OF t01v FOR VALUES IN (%d); " % (i, i)
            self.conn.exec(q)

    def format(self, r, rec, rows, idx):
        fin = all(x[1] is None or abs(x[1]) < float("inf") for x in rows)
        q = ("SELECT toolkit_experimental.to_plotly(tv), toolkit_experimental.to_text(tv, '{{TIMES|json_encode()|safe}}~{{VALUES|json_encode()|safe}}'), toolkit_experimental.to_text(tv, '{{TIMEVALS|safe}}') "
             "FROM (SELECT timevector(t,v ORDER BY o) tv FROM %s) s" % rel(rows))
        got, e = self.err(rec, q)
        if not fin:
            rec.count("refused_nonfinite")
            if e is None:
                rec.fail("timevector:format", "a series with NaN or infinite values was formatted: %s" % (got,))
            return
        if e:
            raise e
        rec.count("formatted")
        pl, tx, tv = got[0]
        pl = json.loads(pl)
        a, b = tx.split("~")
        tv = json.loads(tv)
        forms = {"to_plotly": (pl["times"], pl["vals"]), "to_text": (json.loads(a), json.loads(b)),
                 "to_text TIMEVALS": ([x["time"] for x in tv], [x["val"] for x in tv])}
        for k, (t, v) in forms.items():
            g = [(ts_parse(x), None if y in ("null", None) else float(y)) for x, y in zip(t, v)]
            if g != rows or len(t) != len(v):
                i = next((i for i, (x, y) in enumerate(zip(g, rows)) if x != y), "count")
                rec.fail("timevector:format", "%s of %d points: %s is %s, expected %s" % (k, len(rows), i, g[i] if i != "count" else len(g), rows[i] if i != "count" else len(rows)))
        rec.seen(tx)

    def asof(self, r, rec, rows, idx):
        a = sorted(((t, v) for t, v in rows if v is not None), key=lambda x: x[0])
        if not a:
            return
        rec.count("asof")
        lo, hi = a[0][0], a[-1][0]
        w = max(1, hi - lo)
        b = sorted([(r.choice([r.choice(a)[0], r.randint(lo - w // 4, hi + w // 4), r.choice(a)[0] + r.choice([-1, 1])]), float(i)) for i in range(r.randint(1, 40))], key=lambda x: x[0])
        got = self.Q(rec, "SELECT x.value1, x.value2, (extract(epoch from x.time)*1000000)::bigint FROM (SELECT timevector(t,v ORDER BY o) tv FROM %s) s, (SELECT timevector(t,v ORDER BY o) tv FROM %s) s2, "
                          "LATERAL (SELECT (s.tv -> toolkit_experimental.asof(s2.tv)).*) x" % (rel(a), rel(b)))
        if len(got) != len(b):
            rec.fail("timevector:asof", "%d rows for %d points" % (len(got), len(b)))
        for (t, v), g in zip(b, got):
            prev = [x[1] for x in a if x[0] <= t]
            w1 = prev[-1] if prev else None
            if w1 is None:
                rec.count("asof_before_first")
            g1 = None if g[0] is None else f_parse(g[0])
            if (g1 is None) != (w1 is None) or (w1 is not None and not same_val(g1, w1)) or f_parse(g[1]) != v or int(g[2]) - PGEPOCH_US != t:
                rec.fail("timevector:asof", "at %s the row is %s, expected value %s as of then and %s" % (t, g, w1, v))
                break
        rec.seen(got)
