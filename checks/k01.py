"""candlestick_agg / candlestick / rollup: OHLC, times, volume and vwap of the ticks."""
from run import SqlWorker
from pg import *
from parts import Parts
import gen, orc
from orc import F, close

ID = "K01"
QUICK, THOROUGH = 2500, 50000
RULE = ("seeded sets of 1..60 ticks (ties in time and in price, NULL columns, missing and zero volumes, negative prices, any order) or of 1..12 ready candles, "
        "serially, in partial states over partitions (some empty), by rollup, rollup of rollup, partial rollup, as window prefixes and after a text round trip; "
        "distinct = distinct result vectors")
ASSUMPTIONS = ["finite prices", "of ticks that tie for the time (open, close) or for the price (high_time, low_time) any may be reported"]
MUST_OBSERVE = ["serial", "partial", "rollup", "rollup2", "partial_rollup", "window", "candles", "time_ties", "price_ties", "no_volume", "zero_volume", "vwap", "null_rows",
                "only_nulls", "round_trip"]

COLS = "open(a), high(a), low(a), close(a), open_time(a), high_time(a), low_time(a), close_time(a), volume(a), vwap(a)"


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.parts = Parts(self, "kt", "o int, t timestamptz, p float8, v float8")
        self.cparts = Parts(self, "kc", "o int, a candlestick")
        SqlWorker.__init__(self, ctx)

    def judge(self, g, cs):
        """g: result row; cs: candles (t_open,o),(t_high,h),(t_low,l),(t_close,c),vol,vw with vw the exact price*volume"""
        if not cs:
            return [] if all(x is None for x in g) else ["not NULL although there is nothing: %s" % g]
        if g[0] is None:
            return ["NULL"]
        bad = []
        o, h, l, c = (f_parse(x) for x in g[:4])
        ot, ht, lt, ct = (ts_parse(x) for x in g[4:8])
        if ot != min(x[0][0] for x in cs) or not any(x[0] == (ot, o) for x in cs):
            bad.append("open %s at %s" % (g[0], g[4]))
        if ct != max(x[3][0] for x in cs) or not any(x[3] == (ct, c) for x in cs):
            bad.append("close %s at %s" % (g[3], g[7]))
        if h != max(x[1][1] for x in cs) or not any(x[1] == (ht, h) for x in cs):
            bad.append("high %s at %s" % (g[1], g[5]))
        if l != min(x[2][1] for x in cs) or not any(x[2] == (lt, l) for x in cs):
            bad.append("low %s at %s" % (g[2], g[6]))
        vol, vwap = f_parse(g[8]), f_parse(g[9])
        if any(x[4] is None for x in cs):
            if vol is not None or vwap is not None:
                bad.append("volume %s, vwap %s although a volume is missing" % (g[8], g[9]))
        else:
            sv = sum((F(x[4]) for x in cs), F(0))
            sw = sum((x[5] for x in cs), F(0))
            mag = sum((abs(x[5]) for x in cs), F(0))
            if not close(vol, sv):
                bad.append("volume %s, expected %r" % (g[8], float(sv)))
            if sv == 0:
                if vwap is not None:
                    bad.append("vwap %s without volume" % g[9])
            elif not close(vwap, sw / sv, scale=mag / sv):
                bad.append("vwap %s, expected %r" % (g[9], float(sw / sv)))
        return bad

    def case(self, r, idx, rec):
        n = gen.size(r)
        ts = gen.times(r, n)
        if r.random() < .5:
            ts = [r.choice(ts[:max(1, n // 2)]) if r.random() < .5 else t for t in ts]
        if len(set(ts)) < n:
            rec.count("time_ties")
        ready = r.random() < .25
        novol = r.choice([0, 0, 0, .1, 1])

        def vol():
            return None if r.random() < novol else r.choice([0.0, 1.0, r.uniform(0, 1000), float(r.randint(0, 5))]) if allzero is False else 0.0
        allzero = r.random() < .08
        lits, cs = [], []
        if ready:
            rec.count("candles")
            n = min(n, 12)
            for i in range(n):
                p = [r.uniform(-10, 100) if r.random() < .7 else float(r.randint(0, 3)) for _ in range(4)]
                o, c = p[0], p[3]
                h, l = max(p), min(p)
                v = vol()
                t = ts[i]
                nul = r.random() < .06
                args = [ts_lit(t), f_lit(o), f_lit(h), f_lit(l), f_lit(c)]
                if nul:
                    args[r.randrange(5)] = "NULL"
                    rec.count("null_rows")
                else:
                    cs.append(((t, o), (t, h), (t, l), (t, c), v, None if v is None else F(v) * (F(h) + F(l) + F(c)) / 3))
                if nul:
                    cs.append(None)
                lits.append("candlestick(%s,%s)" % (",".join(args), f_lit(v)))
        else:
            ps = gen.floats(r, n)
            if r.random() < .3:
                ps = [float(r.randint(0, 3)) for _ in ps]
            if len(set(ps)) < n:
                rec.count("price_ties")
            for t, p in zip(ts, ps):
                v = vol()
                if r.random() < .05:
                    rec.count("null_rows")
                    lits.append(r.choice(["NULL,%s,%s" % (f_lit(p), f_lit(v)), "%s,NULL,%s" % (ts_lit(t), f_lit(v)), "NULL,NULL,1"]))
                    cs.append(None)
                else:
                    lits.append("%s,%s,%s" % (ts_lit(t), f_lit(p), f_lit(v)))
                    cs.append(((t, p),) * 4 + (v, None if v is None else F(p) * F(v)))
        perm = list(range(n))
        if r.random() < .6:
            r.shuffle(perm)
        lits, cs = [lits[i] for i in perm], [cs[i] for i in perm]
        m = len(lits)
        mode = r.choice(["serial", "partial", "rollup", "rollup2", "partial_rollup", "window"]) if not ready else r.choice(["rollup", "rollup2", "partial_rollup", "window"])
        rec.count(mode)
        exps = [cs]
        fn = "rollup(a)" if ready else "candlestick_agg(t,p,v)"
        base = "(SELECT o, %s FROM (VALUES %s) d(o,%s)) b" % (
            ("a" if ready else "t::timestamptz t,p::float8 p,v::float8 v"), ",".join("(%d,%s)" % (i, x) for i, x in enumerate(lits)), "a" if ready else "t,p,v")
        g = r.choice([2, 3, 8])
        by = "o*%d/%d" % (g, m) if r.random() < .5 else "(o*7919)%%%d" % g
        what = "%s of %d %s (%s)" % ("rollup" if ready else "candlestick_agg", m, "candles" if ready else "ticks", mode)
        if mode == "serial":
            src = "SELECT 0 o, %s a FROM %s" % (fn, base)
        elif mode == "window":
            src = "SELECT o, %s OVER (ORDER BY o) a FROM %s" % (fn, base)
            exps = [cs[:i + 1] for i in range(m)]
        elif mode == "partial":
            used = r.sample(range(4), r.randint(1, 4))
            self.parts.load(rec, [(r.choice(used), "%d,%s" % (i, x)) for i, x in enumerate(lits)])
            src = "SELECT 0 o, %s a FROM kt" % fn
        else:
            grp = "SELECT g, %s a FROM (SELECT %s g, %s FROM %s) e GROUP BY g" % (fn, by, "a" if ready else "t,p,v", base)
            if mode == "rollup":
                src = "SELECT 0 o, rollup(a) a FROM (%s) s" % grp
            elif mode == "rollup2":
                src = "SELECT 0 o, rollup(a) a FROM (SELECT rollup(a) a FROM (%s) s GROUP BY g%%2) s2" % grp
            else:
                self.cparts.ensure()
                self.Q(rec, "TRUNCATE kc; INSERT INTO kc SELECT g%%%d, g, a FROM (%s) s" % (r.randint(1, 4), grp))
                src = "SELECT 0 o, rollup(a) a FROM kc"
        if r.random() < .4:
            rec.count("round_trip")
            src = "SELECT o, a::text::candlestick a FROM (%s) rt" % src
        got = self.Q(rec, "SELECT %s FROM (%s) s ORDER BY o" % (COLS, src))
        bad = [] if len(got) == len(exps) else ["%d results, expected %d" % (len(got), len(exps))]
        for x, e in zip(got, exps):
            e = [c for c in e if c]
            if not e:
                rec.count("only_nulls")
            if x[9] is not None:
                rec.count("vwap")
            elif x[8] is not None:
                rec.count("zero_volume")
            else:
                rec.count("no_volume")
            bad += self.judge(x, e)
        if bad:
            rec.fail("candlestick:" + mode, what + ": " + "; ".join(bad[:4]))
        if m > 1:
            rec.seen(got)
        if idx < 4:
            rec.sample = "%s -> %s" % (what, got[0])
