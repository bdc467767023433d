"""heartbeat_agg: live time is the union of the heartbeats' liveness inside the window."""
from run import SqlWorker
from pg import *
import gen

ID = "H01"
QUICK, THOROUGH = 1200, 20000
RULE = ("seeded sets of 1..60 and of 990..4200 heartbeats (bursts, gaps around the liveness length, exact touches, duplicates, any order), windows from "
        "microseconds to months, aggregated directly, per group, as window aggregate and after a text round trip; liveness probed at and next to every edge; "
        "distinct = distinct (window, ranges)")
ASSUMPTIONS = ["the window is longer than the liveness and holds every heartbeat, as the aggregate requires"]
MUST_OBSERVE = ["ranges", "merged", "touching", "clipped_at_end", "starts_live", "batches", "live_probes", "dead_probes", "window", "round_trip", "calendar", "out_of_window"]


def union(hs, ln, lo, hi):
    out = []
    for h in sorted(set(hs)):
        if out and h <= out[-1][1]:
            out[-1][1] = h + ln
        else:
            out.append([h, h + ln])
    return clip([tuple(x) for x in out], lo, hi)


def clip(rs, lo, hi):
    return [(max(a, lo), min(b, hi)) for a, b in rs if b > lo and a < hi]


def merge(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def gaps(rs, lo, hi):
    out, p = [], lo
    for a, b in rs:
        if a > p:
            out.append((p, a))
        p = b
    if p < hi:
        out.append((p, hi))
    return out


def cols(a, probes):
    return ("(SELECT string_agg(s::text||'|'||e::text, ';' ORDER BY o) FROM live_ranges(%(a)s) WITH ORDINALITY x(s,e,o)), "
            "(SELECT string_agg(s::text||'|'||e::text, ';' ORDER BY o) FROM dead_ranges(%(a)s) WITH ORDINALITY x(s,e,o)), "
            "%(u)s, %(d)s, num_live_ranges(%(a)s), num_gaps(%(a)s), '' || %(p)s" % {
                "a": a, "u": IVSEC % ("uptime(%s)" % a), "d": IVSEC % ("downtime(%s)" % a),
                "p": " || ".join("(live_at(%s,%s)::int)::text" % (a, ts_lit(t)) for t in probes) or "''"})


def parse_ranges(s):
    return [tuple(ts_parse(y) for y in x.split("|")) for x in s.split(";")] if s else []


def judge(rec, g, rs, lo, hi, probes):
    bad = []
    live, dead = parse_ranges(g[0]), parse_ranges(g[1])
    gp = gaps(rs, lo, hi)

    def diff(name, have, want):
        if have != want:
            i = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
            f = lambda x: [(ts_text(a), ts_text(b)) for a, b in x[i:i + 2]]
            bad.append("%s: %d, expected %d; from no. %d: %s, expected %s" % (name, len(have), len(want), i, f(have), f(want)))
    diff("live_ranges", live, rs)
    diff("dead_ranges", dead, gp)
    up = sum(b - a for a, b in rs)
    if int(g[2]) != up:
        bad.append("uptime %s us, expected %d" % (g[2], up))
    if int(g[3]) != hi - lo - up:
        bad.append("downtime %s us, expected %d" % (g[3], hi - lo - up))
    if int(g[4]) != len(rs) or int(g[5]) != len(gp):
        bad.append("num_live_ranges, num_gaps %s, %s, expected %d, %d" % (g[4], g[5], len(rs), len(gp)))
    for t, x in zip(probes, g[6]):
        w = any(a <= t < b for a, b in rs)
        rec.count("live_probes" if w else "dead_probes")
        if (x == "1") != w:
            bad.append("live_at(%s) is %s" % (ts_text(t), x))
    rec.count("ranges", len(rs))
    return bad


def probes_for(r, rs, lo, hi, k=10):
    p = [lo, hi]
    for a, b in r.sample(rs, min(len(rs), 3)):
        p += [a - 1, a, b - 1, b, (a + b) // 2]
    p += [r.randint(lo, hi) for _ in range(2)]
    p = [x for x in p if lo <= x <= hi]
    return r.sample(p, min(k, len(p)))


def beats(r, n, lo, hi, ln):
    """n heartbeats in [lo, hi)"""
    out, t = [], lo if r.random() < .3 else r.randint(lo, hi - 1)
    kind = r.choice(["random", "walk", "walk", "walk", "touch"])
    dense = max(1, (hi - lo) // max(1, n))
    for _ in range(n):
        if kind == "random" or not lo <= t < hi:
            t = r.randint(lo, hi - 1)
        out.append(t)
        if kind == "touch":
            t += ln
        elif r.random() < .8:
            t += r.choice([ln, ln + 1, ln - 1, r.randint(0, ln), r.randint(0, 2 * ln), 0, dense, r.randint(0, 2 * dense)])
        else:
            t = r.choice(out) + r.choice([0, 1, ln, -ln, ln + 1, -ln - 1])
    if r.random() < .2:
        out[-1] = hi - 1
    o = r.random()
    if o < .4:
        r.shuffle(out)
    elif o < .6:
        out.sort()
    elif o < .7:
        out.sort(reverse=True)
    return out


class Worker(SqlWorker):
    def case(self, r, idx, rec):
        big = r.random() < .12
        n = r.randint(990, 4200) if big else gen.size(r)
        lo = gen.base_ts(r)
        cal = r.random() < .15
        if cal:
            rec.count("calendar")
            dur = r.choice(["1 mon", "1 day", "2 mons 3 days", "1 year", "1 day 00:00:01.5", "7 days"])
            liv = r.choice(["1 day", "12:00:00", "00:00:01", "1 hour 30 min"])
            if dur.startswith("1 day") and liv == "1 day":
                liv = "1 hour"
            x = self.Q(rec, "SELECT %s + interval '%s', %s + interval '%s'" % (ts_lit(lo), dur, ts_lit(lo), liv))[0]
            hi, ln = ts_parse(x[0]), ts_parse(x[1]) - lo
            dur, liv = "'%s'::interval" % dur, "'%s'::interval" % liv
        else:
            ln = r.choice([1, 2, 10, 1000, US, 60 * US, 600 * US, r.randint(1, 10 ** 9)])
            d = ln + 1 + r.choice([0, 1, ln, r.randint(0, 20 * ln), r.randint(0, 3 * ln * n)])
            hi = lo + d
            dur, liv = iv_lit(d), iv_lit(ln)
        hs = beats(r, n, lo, hi, ln)
        if big and r.random() < .5:
            # many separate ranges that later batches glue together
            hs = [lo + (i * 2 * (ln + 1)) % (hi - lo) for i in range(n)]
            r.shuffle(hs)
        rs = union(hs, ln, lo, hi)
        fn = "heartbeat_agg(h,%s,%s,%s)" % (ts_lit(lo), dur, liv)
        what = "%s of %d heartbeats" % (fn, n)
        if big:
            rec.count("batches")
            vals = "(SELECT o, %s + v * interval '1 us' h FROM unnest('{%s}'::bigint[]) WITH ORDINALITY u(v,o)) d" % (ts_lit(lo), ",".join(str(h - lo) for h in hs))
            if hi - lo > 2 ** 31:
                vals = "(SELECT o, %s + make_interval(secs => (v/1000000)) + (v%%1000000) * interval '1 us' h FROM unnest('{%s}'::bigint[]) WITH ORDINALITY u(v,o)) d" % (
                    ts_lit(lo), ",".join(str(h - lo) for h in hs))
        else:
            vals = "(VALUES %s) d(o,h)" % ",".join("(%d,%s)" % (i + 1, ts_lit(h)) for i, h in enumerate(hs))
        probes = probes_for(r, rs, lo, hi)
        exp = [(rs, probes)]
        if not big and r.random() < .25:
            rec.count("window")
            src = "SELECT o, %s OVER (ORDER BY o) a FROM %s" % (fn, vals)
            exp = [(union(hs[:i + 1], ln, lo, hi), probes) for i in range(n)]
        else:
            src = "SELECT 1 o, %s a FROM %s" % (fn, vals)
        if r.random() < .3:
            rec.count("round_trip")
            src = "SELECT o, a::text::heartbeatagg a FROM (%s) rt" % src
        got = self.Q(rec, "WITH s AS MATERIALIZED (%s) SELECT %s FROM s ORDER BY o" % (src, cols("a", probes)))
        bad = [] if len(got) == len(exp) else ["%d results" % len(got)]
        for g, (e, p) in zip(got, exp):
            bad += judge(rec, g, e, lo, hi, p)
        if len(rs) < len(set(hs)):
            rec.count("merged")
        s = sorted(set(hs))
        if any(b - a == ln for a, b in zip(s, s[1:])):
            rec.count("touching")
        if s[-1] + ln > hi:
            rec.count("clipped_at_end")
        if s[0] == lo:
            rec.count("starts_live")
        if bad:
            rec.fail("heartbeat", what + ": " + "; ".join(bad[:3]))
        if n > 1:
            rec.seen((lo, hi, ln, rs))
        if idx < 4:
            rec.sample = "%s -> uptime %s us, %s ranges" % (what, got[0][2], got[0][4])
        if r.random() < .05:
            rec.count("out_of_window")
            t = r.choice([lo - 1, hi, hi + ln])
            x, e = self.err(rec, "SELECT %s FROM (VALUES (%s),(%s)) d(h)" % (fn, ts_lit(hs[0]), ts_lit(t)))
            if e is None:
                rec.fail("heartbeat:outside", "%s accepted a heartbeat at %s" % (fn, ts_text(t)))
