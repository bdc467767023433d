"""Summaries survive being written and read: text form, storage (also out of line), COPY, arrays, rows, accessors stored as values."""
from run import SqlWorker
from pg import *
import gen, cat, re, os

ID = "X03"
QUICK, THOROUGH = 1600, 40000
RULE = ("seeded summaries of every type, with ordinary and hostile contents (NaN, infinities, -0, subnormals, quotes, backslashes, control and non-Latin characters, times from 4713 BC to 294276 and "
        "infinite, NULL values in timevectors), written and read through text, a table with every storage mode, COPY, arrays and composite values, under different session settings; the reread "
        "value must have the same text and every answer the same; distinct = distinct text forms")
ASSUMPTIONS = ["a value is read under the settings it was written with; text forms are compared only when PostgreSQL's own timestamps survive the settings"]
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["hostile", "via:text", "via:text2", "via:table", "via:copy", "via:array", "via:row", "via:toast", "via:aggregated", "settings", "answers_compared", "toasted", "accessor_text"]

TXT = ["'", '"', "\\", "a\\\"b", "\n", "\t", "\x01", "é", "漢字", "\U0001f600", "", " ", "NULL", "null", "(", ")", "[]", ",", "\\u{1}", "'||'", "\x7f", "\u2028", "r#\"", "'::text", "0"]
FL = ["'NaN'::float8", "'Infinity'::float8", "'-Infinity'::float8", "'-0'::float8", "'0'::float8", "'5e-324'::float8", "'1.7976931348623157e308'::float8", "'0.1'::float8", "'1e22'::float8",
      "'1e-7'::float8", "'123456789012345680'::float8", "'-2.2250738585072014e-308'::float8"]
TS = ["'infinity'::timestamptz", "'-infinity'::timestamptz", "'4713-01-01 00:00:00+00 BC'::timestamptz", "'294276-12-31 23:59:59.999999+00'::timestamptz", "'0001-01-01 00:00:00+00'::timestamptz",
      "'1969-12-31 23:59:59.999999+00'::timestamptz", "'2000-01-01 00:00:00.000001+00'::timestamptz", "'1883-11-18 12:03:57+00'::timestamptz", "'2023-11-05 05:30:00+00'::timestamptz"]
BI = ["9223372036854775807::bigint", "(-9223372036854775808)::bigint", "0::bigint"]
SET = ["SET DateStyle='ISO, DMY'", "SET DateStyle='SQL, MDY'", "SET DateStyle='Postgres, DMY'", "SET DateStyle='German'", "SET TimeZone='America/New_York'", "SET TimeZone='Asia/Kathmandu'",
       "SET TimeZone='Europe/Dublin'", "SET extra_float_digits=0", "SET extra_float_digits=3", "SET extra_float_digits=-10", "SET IntervalStyle='iso_8601'", "SET bytea_output='escape'",
       "SET standard_conforming_strings=off", "SET DateStyle='SQL, DMY'; SET TimeZone='Australia/Lord_Howe'"]
RESET = "RESET DateStyle; RESET TimeZone; RESET extra_float_digits; RESET IntervalStyle; RESET bytea_output; RESET standard_conforming_strings"


def hostile(r, rows, cols):
    for row in rows:
        for i, (_, ty) in enumerate(cols):
            if r.random() < .3:
                if ty == "float8":
                    row[i] = r.choice(FL)
                elif ty == "text":
                    row[i] = s_lit(r.choice(TXT) + r.choice(["", "", r.choice(TXT)]))
                elif ty == "bigint":
                    row[i] = r.choice(BI)
                elif ty == "timestamptz" and r.random() < .5:
                    row[i] = r.choice(TS)


class Worker(SqlWorker):
    def table(self, rec, ty):
        if getattr(self, "tabs", None) is None or self.tabconn is not self.conn:
            self.tabs, self.tabconn = {}, self.conn
        if ty not in self.tabs:
            t = "x03_%d" % len(self.tabs)
            self.tabs[ty] = t
            self.conn.exec("CREATE TEMP TABLE %s(a %s, f text, g text); CREATE TEMP TABLE %s_e(a %s); ALTER TABLE %s_e ALTER a SET STORAGE EXTERNAL; CREATE TEMP TABLE %s_m(a %s); ALTER TABLE %s_m ALTER a SET STORAGE MAIN"
                           % (t, ty, t, ty, t, t, ty, t))
        return self.tabs[ty]

    def case(self, r, idx, rec):
        if idx % 40 == 39:
            return self.accessors(r, rec)
        names = sorted(cat.KINDS)
        big = r.random() < .15 and names[idx % len(names)] not in ('asap', 'gp_lttb', 'lttb')
        k, cols, rows = cat.instance(r, names[idx % len(names)], n=r.randint(300, 1500) if big else gen.size(r, 60))
        rec.count("agg:" + k.name)
        accs = k.accs(r, rows)
        agg = k.agg(r, rows).replace("{o}", "")
        host = r.random() < .5
        if host:
            rec.count("hostile")
            hostile(r, rows, cols)
            if k.ty == "timevector_tstz_f64" and k.name == "timevector":
                for row in rows:
                    if r.random() < .2:
                        row[1] = "NULL::float8"
        t = self.table(rec, k.ty)
        names_ = ", ".join(c[0] for c in cols)
        src = "SELECT %s a FROM (VALUES %s) d(%s)" % (agg, ",".join("(%s)" % ",".join(x) for x in rows), names_)
        _, e = self.err(rec, "TRUNCATE %s; INSERT INTO %s(a) %s" % (t, t, src))
        if e:
            if host:
                # infinite or extreme input may be refused: X05 judges how
                rec.count("refused")
                return
            rec.fail("build:%s" % k.name, "%s: %s" % (agg, e))
            return
        setting = None
        if r.random() < .4:
            setting = r.choice(SET)
            if k.name in ("raw_freq_f", "raw_mcv_f") and "extra_float_digits" in setting:
                setting = SET[0]  # PostgreSQL's own text of a float8 is not exact then
            rec.count("settings")
            self.Q(rec, setting)
        try:
            self.trip(r, idx, rec, k, cols, rows, accs, agg, t, setting)
        finally:
            if setting:
                self.conn.exec(RESET)

    def trip(self, r, idx, rec, k, cols, rows, accs, agg, t, setting):
        if setting:
            # do PostgreSQL's own timestamps survive these settings?
            tcols = [i for i, c in enumerate(cols) if c[1] == "timestamptz"]
            lits = sorted({row[i] for row in rows for i in tcols})
            if lits:
                q = "SELECT bool_and((t::text)::timestamptz = t) FROM unnest(ARRAY[%s]) t" % ",".join(lits)
                rws, e = self.err(rec, q)
                if e or rws[0][0] != "t":
                    rec.count("settings_lossy")
                    return
        via = "toast" if len(rows) > 300 and r.random() < .4 else r.choice(["text", "text2", "table", "copy", "array", "row", "toast", "aggregated"])
        rec.count("via:" + via)
        ty, T = k.ty, t
        if via == "text":
            q = "SELECT a::text::%s b FROM %s" % (ty, t)
        elif via == "text2":
            q = "SELECT a::text::%s::text::%s b FROM %s" % (ty, ty, t)
        elif via == "array":
            q = "SELECT (((array[a, NULL, a])::text)::%s[])[3] b FROM %s" % (ty, t)
        elif via == "row":
            # through a composite value and its text form
            q = "SELECT (z.r).a b FROM (SELECT (ROW(a, 'x', 'y')::text)::%s r FROM %s) z" % (t, t)
        elif via == "aggregated":
            q = "SELECT (array_agg(a ORDER BY i))[2] b FROM %s, generate_series(1, 3) i" % t
        elif via == "table":
            self.Q(rec, "TRUNCATE %s_m; INSERT INTO %s_m SELECT a FROM %s" % (t, t, t))
            q = "SELECT a b FROM %s_m" % t
        elif via == "toast":
            self.Q(rec, "TRUNCATE %s_e; INSERT INTO %s_e SELECT a FROM %s" % (t, t, t))
            if self.Q(rec, "SELECT pg_relation_size(reltoastrelid) FROM pg_class WHERE oid='%s_e'::regclass" % t)[0][0] not in ("0", None):
                rec.count("toasted")
            q = "SELECT a b FROM %s_e" % t
        else:
            d = self.ctx.server.dir + "/copy"
            fmt = r.choice(["text", "csv"])
            f = "%s.%d.%s" % (d, os.getpid(), fmt)
            self.Q(rec, "TRUNCATE %s_m; COPY %s(a) TO '%s' (FORMAT %s); COPY %s_m FROM '%s' (FORMAT %s)" % (t, t, f, fmt, t, f, fmt))
            q = "SELECT a b FROM %s_m" % t
        # one answer that both refuse must not hide the others
        safe = []
        for x in accs:
            rw, e = self.err(rec, "SELECT %s FROM %s" % (x.sql("a"), t))
            if e:
                rec.count("answer_refused")
            else:
                safe.append((x, rw[0][0]))
        got, e = self.err(rec, "SELECT b::text = a::text, a IS NULL, b IS NULL, b::text, a::text%s FROM (%s) q, %s" % ("".join(", " + x.sql("b") for x, _ in safe), q, t))
        if e:
            rec.fail("roundtrip:error:" + k.name, "%s of %s%s: %s" % (via, agg, " under " + setting if setting else "", e))
            return
        g = got[0]
        if g[1] != g[2]:
            rec.fail("roundtrip:null:" + k.name, "%s: NULL became non-NULL or the other way round" % via)
            return
        if g[1] == "t":
            rec.count("null")
            return
        if g[0] != "t":
            rec.fail("roundtrip:text:" + k.name, "%s of %s%s: the text form changed: %s ... became %s ..." % (via, agg, " under " + setting if setting else "", diff(g[4], g[3]), diff(g[3], g[4])))
        bad = []
        for (x, v), w in zip(safe, g[5:]):
            rec.count("answers_compared")
            if v != w:
                bad.append("%s: %s became %s" % (x.fn, v, w))
        if bad:
            rec.fail("roundtrip:answers:" + k.name, "%s of %s%s: %s" % (via, agg, " under " + setting if setting else "", "; ".join(bad[:3])))
        rec.seen(g[4])
        if idx < 6:
            rec.sample = "%s of %s: %s..." % (via, agg, g[4][:100])

    def accessors(self, r, rec):
        """an accessor is a value of its own: its text form keeps its meaning"""
        rec.count("accessor_text")
        vals = ["approx_percentile(%s)" % cat.pick_q(r), "approx_percentiles(ARRAY[%s])" % ",".join(cat.pick_q(r) for _ in range(r.randint(1, 20)))]
        one = ["average()", "stddev('pop')", "stddev('sample')", "variance('pop')", "skewness('sample')", "kurtosis('pop')"]
        data = "(VALUES %s) d(x)" % ",".join("(%s)" % f_lit(v) for v in gen.floats(r, r.randint(3, 30)))
        for a, s in [(v, "percentile_agg(x)") for v in vals] + [(r.choice(one), "stats_agg(x)")]:
            ty = self.Q(rec, "SELECT pg_typeof(%s)" % a)[0][0]
            q = "SELECT (s -> %s)::text, (s -> (%s)::text::%s)::text FROM (SELECT %s s FROM %s) z" % (a, a, ty, s, data)
            g = self.Q(rec, q)[0]
            if g[0] != g[1]:
                rec.fail("accessor:" + ty, "%s: %s, through its text form %s" % (a, g[0], g[1]))
        t = gen.times(r, 3)
        data = "(VALUES %s) d(t,x)" % ",".join("(%s,%s)" % (ts_lit(x), f_lit(v)) for x, v in zip(t, sorted(gen.floats(r, 3, "unit"))))
        for a, s in [("with_bounds(tstzrange(%s,%s))" % (ts_lit(t[0]), ts_lit(t[-1] + 5)), "counter_agg(t,x)"),
                     ("interpolated_delta(%s,%s,NULL,NULL)" % (ts_lit(t[0]), iv_lit(t[-1] - t[0] + 5)), "counter_agg(t,x)"),
                     ("integral('%s')" % r.choice(["hour", "ms"]), "time_weight('Linear',t,x)"),
                     ("trim_to(%s,'1 us')" % ts_lit(t[0]), "heartbeat_agg(t,%s,%s,'1 s')" % (ts_lit(t[0]), iv_lit(t[-1] - t[0] + US * 2))),
                     ("state_at(%s)" % ts_lit(t[1]), "state_agg(t, x::text)"), ("duration_in('q''\"')", "state_agg(t, 'q''\"')"), ("topn(2)", "mcv_agg(3, x::text)")]:
            ty = self.Q(rec, "SELECT pg_typeof(%s)" % a)[0][0]
            q = "SELECT (s -> %s)::text, (s -> (%s)::text::%s)::text FROM (SELECT %s s FROM %s) z" % (a, a, ty, s, data)
            g = self.Q(rec, q)[0]
            if g[0] != g[1]:
                rec.fail("accessor:" + ty, "%s: %s, through its text form %s" % (a, g[0], g[1]))
        rec.seen((vals, t))


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return a[max(0, i - 60):i + 60]
