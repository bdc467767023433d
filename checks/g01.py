"""Statements give their memory back, and what keeps a bounded summary works in bounded memory."""
from run import SqlWorker
from pg import *
import cat, gen, pipe

ID = "G01"
N = len(cat.KINDS)
QUICK, THOROUGH = 3 * N + 60, 30 * N + 600
QUICK_SECS = 110
RULE = ("every aggregate, every accessor and every pipeline element run tens of thousands of times in one backend (grouped, as a moving window, rolled up, through text, failing midway, cancelled), and "
        "single aggregates over up to two million rows; the backend's private memory is read from the kernel after each block of statements: it must stop growing; suspected growth is confirmed "
        "by repeating with four times the statements; distinct = statements watched")
ASSUMPTIONS = ["growth below about 20 bytes per call, or 300 kB over a block of statements, is not seen"]
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["accessor_calls", "groups", "windows", "rollups", "texts", "errors", "long_inputs", "pipelines", "blocks", "cancels"]
BLOCK_KB = 200
LONG = {  # aggregate over x = 1..n with a bounded state, n
    "stats_agg(x)": 0, "stats_agg(x, x*2)": 0, "uddsketch(100, 0.01, x)": 0, "percentile_agg(x)": 0, "tdigest(100, x)": 0, "hyperloglog(4096, x)": 0, "approx_count_distinct(x::text)": 0,
    "max_n(x, 10)": 0, "min_n(x::bigint, 10)": 0, "max_n_by(x, 'row ' || x, 10)": 0, "min_n_by(x::bigint, 'row ' || x, 10)": 0, "max_n_by(-x, 'row ' || x, 5)": 0, "max_n_by(x::int % 1000, md5(x::text), 5)": 0,
    "mcv_agg(10, md5(x::text))": 0, "mcv_agg(10, (x::bigint % 5000))": 0, "raw_mcv_agg(10, md5(x::text)::uuid)": 0, "raw_mcv_agg(10, x::numeric)": 0, "toolkit_experimental.freq_agg(0.01, md5(x::text))": 0,
    "toolkit_experimental.raw_freq_agg(0.01, ('n' || x)::name)": 0, "toolkit_experimental.count_min_sketch(x::text, 0.01, 0.01)": 0,
    "candlestick_agg('2020-01-01'::timestamptz + x * interval '1 s', x, 1)": 0, "toolkit_experimental.stats_agg_tf(x)": 0, "compact": None,
}
LONG = sorted(k for k in LONG if k != "compact")
PIPES = ["sort()", "sort() -> delta()", "sort() -> fill_to('3 hours', 'locf')", "map($$ $value * 2 + ln($value + 10) $$)", "map($$ ($time + '1 day'i, abs($value)) $$)", "filter($$ $value > 0 or $time < '2024-01-02't $$)", "abs() -> ceil() -> floor()",
         "sort() -> toolkit_experimental.lttb(5)", "add(1) -> mul(2) -> power(2)", "map_series('g01_ident')", "map_data('g01_half')", "sort() -> delta() -> round()"]


def db_setup(c, ctx):
    c.exec("CREATE FUNCTION g01_ident(timevector_tstz_f64) RETURNS timevector_tstz_f64 LANGUAGE sql AS 'SELECT $1'; CREATE FUNCTION g01_half(float8) RETURNS float8 LANGUAGE sql AS 'SELECT $1 / 2'")


class Worker(SqlWorker):
    SETTINGS = "SET search_path=public, toolkit_experimental; SET max_parallel_workers_per_gather=0; SET jit=off; SET work_mem='4MB'"

    def rss(self, hwm=False):
        for l in open("/proc/%s/status" % self.pid):
            if l.startswith("VmHWM:" if hwm else "RssAnon:"):
                return int(l.split()[1])
        return 0

    def fresh(self):
        self.reconnect()
        self.pid = self.conn.pid

    def watch(self, rec, what, stmts, reps, ok_errors=False):
        """runs the statements in blocks; must stop growing"""
        def block(n):
            for _ in range(n):
                for s in stmts:
                    try:
                        self.conn.query(s)
                    except PgError as e:
                        if not ok_errors:
                            raise
            rec.count("blocks")
            return self.rss()
        for s in stmts[:3]:
            rec.sql(s)
        rec.seen(what)
        block(reps)
        a = [block(reps) for _ in range(3)]
        g = [y - x for x, y in zip(a, a[1:])]
        if min(g) < BLOCK_KB:
            return
        # confirm: it goes on, and in proportion
        a = [block(4 * reps) for _ in range(4)]
        g2 = [y - x for x, y in zip(a, a[1:])]
        if min(g2) > 2 * max(BLOCK_KB, min(g)):
            rec.fail("grows:" + what.split(" of ")[0], "%s: the backend keeps growing, by %s kB for each %d repetitions of %s" % (what, g2, 4 * reps, "; ".join(x[:300] for x in stmts[:2])))

    def case(self, r, idx, rec):
        self.fresh()
        names = sorted(cat.KINDS)
        if idx < 3 * N or idx >= 3 * N + 60 and idx % 11 < 9:
            self.kind(r, idx, rec, names[idx % N], (idx // N) % 3)
        elif idx % 2:
            self.longrun(r, rec, LONG[(idx // 2) % len(LONG)])
        else:
            self.pipes(r, idx, rec)

    def kind(self, r, idx, rec, name, mode):
        k, cols, rows = cat.instance(r, name, n=gen.size(r, 20))
        rec.count("agg:" + name)
        agg = k.agg(r, rows).replace("{o}", "")
        accs = k.accs(r, rows)
        self.conn.exec("CREATE TEMP TABLE d(%s); INSERT INTO d VALUES %s" % (", ".join("%s %s" % c for c in cols), ",".join("(%s)" % ",".join(x) for x in rows)))
        self.conn.exec("CREATE TEMP TABLE s AS SELECT %s a FROM d" % agg)
        per = max(1, (800 if name == 'count_min' else 8000) // max(len(rows), 4))
        if mode == 0:
            # many states per statement
            rec.count("groups")
            stmts = ["SELECT count(a) FROM (SELECT %s a FROM d, generate_series(1, %d) g GROUP BY g) q" % (agg, per)]
            if not k.order and len(rows) <= 60 and name not in ("asap", "lttb", "gp_lttb", "heartbeat"):
                rec.count("windows")
                stmts.append("SELECT count(a) FROM (SELECT %s OVER (ORDER BY g.ctid ROWS BETWEEN 3 PRECEDING AND 1 FOLLOWING) a FROM d g, generate_series(1, %d)) q" % (agg, max(1, per // 10)))
                try:
                    self.conn.query(stmts[1])
                except PgError:
                    stmts.pop()
            self.watch(rec, "aggregate of " + name, stmts, 3)
        elif mode == 1:
            good = []
            for a in accs:
                for f in [a.sql("a")] + ([a.arrow_sql("a")] if a.arrow else []):
                    try:
                        self.conn.query("SELECT %s FROM s" % f)
                        good.append(f)
                    except PgError:
                        pass
            good = r.sample(good, min(len(good), 12))
            if good:
                self.conn.exec("CREATE TEMP TABLE many AS SELECT a, g FROM s, generate_series(1, %d) g" % (40 if "timevector" in k.ty or "countmin" in k.ty else max(20, min(400, 60000 // max(1, len(rows))))))
                rec.count("accessor_calls", len(good))
                self.watch(rec, "accessors of " + name, ["SELECT %s FROM many" % ", ".join("count(%s)" % f for f in good)], 3)
        else:
            stmts = []
            if k.roll and k.pieces == "any":
                rec.count("rollups")
                stmts.append("SELECT count(%s) FROM s, generate_series(1, 30) g, generate_series(1, 20) h GROUP BY h" % k.roll.replace("{a}", "a"))
            elif k.roll:
                stmts.append("SELECT count(b) FROM (SELECT %s b FROM s, generate_series(1, 300) h GROUP BY h) q" % k.roll.replace("{a}", "a"))
                try:
                    self.conn.query(stmts[-1])
                except PgError:
                    stmts.pop()
            if stmts and k.pieces == "any":
                stmts[0] = "SELECT count(b) FROM (SELECT %s b FROM s, generate_series(1, 30) g, generate_series(1, 20) h GROUP BY h) q" % k.roll.replace("{a}", "a")
            rec.count("texts")
            n = 30 if k.ty == "hyperloglog" or "countmin" in k.ty else 200
            stmts.append("SELECT count((a::text)::%s) FROM s, generate_series(1, %d) g" % (k.ty, n))
            self.watch(rec, "rollup and text of " + name, stmts, 3)
            # the same, ended by an error after the states were built
            rec.count("errors")
            per = max(1, 4000 // max(len(rows), 4))
            self.watch(rec, "failing aggregate of " + name, [
                "SELECT count(a), sum(1 / (g - %d)) FROM (SELECT %s a, g FROM d, generate_series(1, %d) g GROUP BY g) q" % (per, agg, per),
                "SELECT count(('(' || substr(a::text, 2, 30))::%s) FROM s" % k.ty,
                "SELECT %s FROM d, (SELECT g, 1 / (g - 150) FROM generate_series(1, 200) g OFFSET 0) q(g, h) WHERE h IS NOT NULL" % agg], 3, ok_errors=True)
        self.conn.exec("DROP TABLE IF EXISTS many, s, d")

    def longrun(self, r, rec, agg):
        """the peak for many rows must not exceed the peak for few by more than a constant"""
        rec.count("long_inputs")
        q = "SELECT count(a) FROM (SELECT %s a FROM generate_series(1, NNN) g, LATERAL (SELECT g::float8 x OFFSET 0) y) q" % agg
        rec.seen(agg)
        rec.sql(q.replace("NNN", "200000"))
        peak = []
        n0 = 20000
        for n in (n0, 10 * n0):
            self.fresh()
            self.conn.query(q.replace("NNN", "1000"))
            self.conn.query(q.replace("NNN", str(n)))
            peak.append(self.rss(hwm=True))
        if peak[1] - peak[0] > 6000:
            self.fresh()
            self.conn.query(q.replace("NNN", str(30 * n0)))
            p3 = self.rss(hwm=True)
            if p3 - peak[0] > 2 * (peak[1] - peak[0]):
                rec.fail("unbounded", "%s: the backend peaks at %d kB for %d rows, %d kB for %d, %d kB for %d" % (agg, peak[0], n0, peak[1], 10 * n0, p3, 30 * n0))

    def pipes(self, r, idx, rec):
        rec.count("pipelines")
        ps = r.sample(PIPES, 3)
        self.conn.exec("CREATE TEMP TABLE tv AS SELECT timevector('2024-01-01'::timestamptz + (i * 7 %% 20) * interval '1 h', (i * 3 %% 11)::float8 - 4) v FROM generate_series(1, 20) i, generate_series(1, %d) g GROUP BY g" % 200)
        self.watch(rec, "pipeline of " + " / ".join(ps), ["SELECT count(v -> (%s)) FROM tv" % p for p in ps] + ["SELECT count(to_text(v, '{{TIMES}}')) FROM tv WHERE random() < .1"], 3)
        if idx % 4 == 0:
            rec.count("cancels")
            self.conn.exec("SET statement_timeout='12ms'")
            self.watch(rec, "cancelled pipeline of " + ps[0], ["SELECT count(num_vals(v -> (%s))) FROM tv, generate_series(1, 100000)" % ps[0], "SELECT count(a) FROM (SELECT %s a FROM generate_series(1, 1000000) g, LATERAL (SELECT g::float8 x) y) q"
                       % r.choice(LONG)], 6, ok_errors=True)
            self.conn.exec("SET statement_timeout='60s'")
