"""state_agg / compact_state_agg: durations, timeline, periods and point queries are those of the sorted series."""
from run import SqlWorker
from pg import *
from parts import Parts
import gen

ID = "A01"
QUICK, THOROUGH = 1500, 30000
RULE = ("seeded series of 1..80 (time, state) rows over 1..12 text states (substrings of one another, empty, multi-byte, long) or bigint states (extremes), exact duplicates, "
        "NULL states, any order; serially, in partial states over partitions (some empty), as window prefixes, after a text round trip; queried in function and arrow form at and "
        "around every change; distinct = distinct timelines")
ASSUMPTIONS = ["one state per instant (two different ones are refused)"]
MUST_OBSERVE = ["text", "int", "compact", "partial", "window", "round_trip", "repeats", "null_states", "substrings", "state_at", "before_first", "after_last", "ranged",
                "open_ranged", "arrow", "conflicts_refused", "only_nulls", "unknown_state"]

TEXTS = ["a", "b", "ab", "ba", "aba", "", "on", "off", "o", "é", "日本", "日", "本a", "a'b", "x" * 300, "A", "a b", " a", "0", "\\n"]


def hx(e):
    return "encode(convert_to(%s,'UTF8'),'hex')" % e


class Tl:
    """a timeline: [(state, start, end)] contiguous; the last segment may be empty"""

    def __init__(self, recs):
        recs = sorted(set(recs))
        self.first, self.last = recs[0][0], recs[-1][0]
        self.segs = []
        for t, s in recs:
            if self.segs and self.segs[-1][0] == s:
                continue
            if self.segs:
                self.segs[-1][2] = t
            self.segs.append([s, t, None])
        self.segs[-1][2] = self.last

    def copy(self):
        o = Tl.__new__(Tl)
        o.first, o.last, o.segs = self.first, self.last, [list(x) for x in self.segs]
        return o

    def interpolated(self, start, ln, prev):
        o = self.copy()
        if prev is not None and start < o.first:
            s = prev.segs[-1][0]
            if o.segs[0][0] == s:
                o.segs[0][1] = start
            else:
                o.segs.insert(0, [s, start, o.first])
            o.first = start
        if start + ln > o.last:
            o.segs[-1][2] = o.last = start + ln
        return o

    def durations(self):
        d = {}
        for s, a, b in self.segs:
            d[s] = d.get(s, 0) + b - a
        return d

    def at(self, t):
        r = None
        for s, a, b in self.segs:
            if a <= t:
                r = s
        return r

    def within(self, s, a, b):
        return sum(max(0, min(y, b) - max(x, a)) for z, x, y in self.segs if z == s)


def lit(ty, s):
    return "'%d'::bigint" % s if ty == "bigint" else "NULL::" + ty if s is None else s_lit(s) + "::text"


def enc(ty, s):
    return str(s) if ty == "bigint" else s.encode().hex()


def states(r):
    if r.random() < .5:
        k = r.choice([1, 2, 3, 12])
        return "bigint", r.sample([0, 1, 2, 3, -1, 2 ** 63 - 1, -2 ** 63, 10, 100, 5551, 5552, 7], k)
    return "text", r.sample(TEXTS, r.choice([1, 2, 3, 5, 12]))


def series(r, n, st, base=None, kind=None):
    ts = gen.times(r, n, kind, base)
    stick = r.choice([0, .3, .8])
    out, s = [], r.choice(st)
    for t in ts:
        if r.random() >= stick:
            s = r.choice(st)
        out.append((t, s))
    return out


def exprs(r, ty, a, tl, st, n, rec, compact=False):
    """[(sql, expected text, what)] of random questions about the aggregate a with timeline tl"""
    it = "int_" if ty == "bigint" else ""
    sfx = "_int" if ty == "bigint" else ""
    col = "s::text" if ty == "bigint" else hx("s")
    sch = "toolkit_experimental." if compact else ""
    pts = sorted({x for q in tl.segs for x in q[1:]} | {tl.first - 1, tl.last + 1})
    pt = lambda: r.choice(pts) + r.choice([0, 0, 0, 1, -1])
    out = []
    d = tl.durations()
    dur = lambda e: "coalesce((%s)::text,'N')" % (IVSEC % e)
    for _ in range(n):
        k = r.choice(["values", "dur", "dur"] if compact else ["values", "timeline", "dur", "at", "at", "at", "periods", "ranged", "ranged", "open"])
        arrow = not compact and r.random() < .4
        if arrow:
            rec.count("arrow")
        s = r.choice(st)
        if s not in d:
            rec.count("unknown_state")
        if k == "values":
            f = "%s->%sinto_%svalues()" % (a, sch, it) if arrow else "%sinto_%svalues(%s)" % (sch, it, a)
            want = ";".join(sorted("%s|%d" % (enc(ty, x), y) for x, y in d.items()))
            out.append(("(SELECT string_agg(x, ';' ORDER BY x COLLATE \"C\") FROM (SELECT %s || '|' || %s x FROM (SELECT (q).state s, (q).duration d FROM (SELECT %s q) w) v) u)"
                        % (col, IVSEC % "d", f), want, "into_values"))
        elif k == "timeline":
            f = "%s->state_%stimeline()" % (a, it) if arrow else "state_%stimeline(%s)" % (it, a)
            out.append((tlq(f, ty), tlx(tl, ty), "state_timeline"))
        elif k == "dur":
            f = "%s->duration_in(%s)" % (a, lit(ty, s)) if arrow else "%sduration_in(%s,%s)" % (sch, a, lit(ty, s))
            out.append((dur(f), str(d.get(s, 0)), "duration_in(%r)" % (s,)))
        elif k == "at":
            t = pt()
            f = "%s->state_at%s(%s)" % (a, sfx, ts_lit(t)) if arrow else "state_at%s(%s,%s)" % (sfx, a, ts_lit(t))
            w = tl.at(t)
            rec.count("state_at")
            rec.count("before_first" if w is None else "after_last" if t > tl.last else "at_inside")
            out.append(("coalesce(%s,'N')" % (("(%s)::text" if ty == "bigint" else hx("%s")) % f), "N" if w is None else enc(ty, w), "state_at(%s)" % ts_text(t)))
        elif k == "periods":
            f = "%s->state_periods(%s)" % (a, lit(ty, s)) if arrow else "state_periods(%s,%s)" % (a, lit(ty, s))
            out.append((perq(f), perx(tl, s), "state_periods(%r)" % (s,)))
        else:
            x, y = sorted((pt(), pt()))
            if k == "ranged":
                rec.count("ranged")
                args = "%s,%s,%s" % (lit(ty, s), ts_lit(x), iv_lit(y - x))
            else:
                rec.count("open_ranged")
                args = "%s,%s" % (lit(ty, s), ts_lit(x))
                y = 2 ** 63
            f = "%s->duration_in(%s)" % (a, args) if arrow else "duration_in(%s,%s)" % (a, args)
            out.append((dur(f), str(tl.within(s, x, y)), "duration_in(%s)" % args))
    return out


def tlq(f, ty):
    col = "s::text" if ty == "bigint" else hx("s")
    return ("(SELECT string_agg(%s||'|'||a||'|'||b, ';' ORDER BY o) FROM (SELECT row_number() OVER () o, (q).state s, (q).start_time a, (q).end_time b FROM (SELECT %s q) w) v)" % (col, f))


def tlx(tl, ty):
    return ";".join("%s|%s|%s" % (enc(ty, s), ts_text(a), ts_text(b)) for s, a, b in tl.segs)


def perq(f):
    return "coalesce((SELECT string_agg(a||'|'||b, ';' ORDER BY o) FROM (SELECT row_number() OVER () o, (q).start_time a, (q).end_time b FROM (SELECT %s q) w) v),'')" % f


def perx(tl, s):
    return ";".join("%s|%s" % (ts_text(a), ts_text(b)) for z, a, b in tl.segs if z == s)


def norm(s):
    """expected and received timestamps in one spelling"""
    return s


def judge(rec, row, ex):
    bad = []
    for g, (q, w, what) in zip(row, ex):
        if canon(g) != canon(w):
            bad.append("%s = %s, expected %s" % (what, str(g)[:300], w[:300]))
        rec.count("answers")
    return bad


def canon(s):
    if s is None or "|" not in s:
        return s
    return [[ts_parse(x) if ":" in x else x for x in p.split("|")] for p in s.split(";")]


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.parts = {"text": Parts(self, "at", "o int, t timestamptz, s text"), "bigint": Parts(self, "ai", "o int, t timestamptz, s bigint")}
        SqlWorker.__init__(self, ctx)

    def case(self, r, idx, rec):
        ty, st = states(r)
        rec.count("int" if ty == "bigint" else "text")
        n = gen.size(r, 80)
        rows = series(r, n, st)
        if any(x != y and x in y for x in st for y in st if ty == "text"):
            rec.count("substrings")
        for _ in range(r.choice([0, 0, 1, 4])):
            rows.append(r.choice(rows))
            rec.count("repeats")
        tl_rows = list(rows)
        for _ in range(r.choice([0, 0, 1, 3])):
            rows.append((r.choice(rows)[0] + r.randint(-3, 3), None))
            rec.count("null_states")
        o = r.random()
        if o < .5:
            r.shuffle(rows)
        elif o < .6:
            rows.sort(key=lambda x: -x[0])
        compact = r.random() < .25
        agg = "toolkit_experimental.compact_state_agg(t,s)" if compact else "state_agg(t,s)"
        if compact:
            rec.count("compact")
        st = st + ([12345] if ty == "bigint" else ["nope"])
        L = lambda s: "NULL::" + ty if s is None else lit(ty, s)
        mode = r.choice(["serial", "serial", "partial", "window"])
        tl = Tl(tl_rows)
        if mode == "window" and n <= 40:
            rec.count("window")
            pre, exp = [], []
            for i, x in enumerate(rows):
                if x[1] is not None:
                    pre.append(x)
                exp.append(Tl(pre) if pre else None)
            q = "SELECT o, %s OVER (ORDER BY o) a FROM (VALUES %s) d(o,t,s)" % (agg, ",".join("(%d,%s,%s)" % (i, ts_lit(t), L(s)) for i, (t, s) in enumerate(rows)))
            got = self.Q(rec, "WITH w AS MATERIALIZED (%s) SELECT o, a IS NULL, %s FROM w ORDER BY o" % (
                q, "(SELECT string_agg(x, ';' ORDER BY x COLLATE \"C\") FROM (SELECT %s || '|' || %s x FROM (SELECT (q).state s, (q).duration d FROM (SELECT %sinto_%svalues(a) q) w) v) u)"
                % ("s::text" if ty == "bigint" else hx("s"), IVSEC % "d", "toolkit_experimental." if compact else "", "int_" if ty == "bigint" else "")))
            for g, t in zip(got, exp):
                want = None if t is None else ";".join(sorted("%s|%d" % (enc(ty, x), y) for x, y in t.durations().items()))
                if g[2] != want:
                    rec.fail("state:window", "row %s: %s, expected %s" % (g[0], g[2], want))
                    break
            return
        if mode == "partial":
            rec.count("partial")
            P = self.parts[ty]
            k = r.choice([1, 2, 4])
            P.load(rec, [(r.randrange(k), "%d,%s,%s" % (i, ts_lit(t), L(s))) for i, (t, s) in enumerate(rows)])
            src = "SELECT %s a FROM %s" % (agg, P.name)
            if r.random() < .02 and not P.is_partial(rec, src):
                rec.inconclusive("no partial aggregate in the plan")
        else:
            src = "SELECT %s a FROM (VALUES %s) d(o,t,s)" % (agg, ",".join("(%d,%s,%s)" % (i, ts_lit(t), L(s)) for i, (t, s) in enumerate(rows)))
        if r.random() < .25:
            rec.count("round_trip")
            src = "SELECT a::text::%s a FROM (%s) z" % ("toolkit_experimental.compactstateagg" if compact else "stateagg", src)
        ex = exprs(r, ty, "a", tl, st, r.randint(3, 9), rec, compact)
        got = self.Q(rec, "WITH w AS MATERIALIZED (%s) SELECT %s FROM w" % (src, ", ".join(e[0] for e in ex)))[0]
        bad = judge(rec, got, ex)
        if bad:
            rec.fail("state", "%s of %d rows, %s: %s" % (agg, len(rows), mode, "; ".join(bad[:3])))
        if len(tl.segs) > 1:
            rec.seen((ty, tl.segs))
        if idx < 4:
            rec.sample = "%s of %d rows: %s = %s" % (agg, len(rows), ex[0][2], got[0])
        if r.random() < .06:
            rec.count("only_nulls")
            x = self.Q(rec, "SELECT %s IS NULL FROM (VALUES (%s,NULL::%s)) d(t,s)" % (agg, ts_lit(tl.first), ty))
            if x[0][0] != "t":
                rec.fail("state:nulls", "%s of a NULL state is not NULL" % agg)
        if len(st) > 2 and r.random() < .06:
            rec.count("conflicts_refused")
            t, s = r.choice(tl_rows)
            s2 = r.choice([x for x in st if x != s])
            rr = rows + [(t, s2)]
            r.shuffle(rr)
            x, e = self.err(rec, "SELECT %s FROM (VALUES %s) d(t,s)" % (agg, ",".join("(%s,%s)" % (ts_lit(t), L(s)) for t, s in rr)))
            if e is None:
                rec.fail("state:conflict", "two states at %s were accepted" % ts_text(t))
