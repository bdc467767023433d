"""The answer does not depend on how PostgreSQL evaluates the aggregate."""
from run import SqlWorker
from pg import *
from parts import Parts
import gen, cat

ID = "X01"
QUICK, THOROUGH = 1400, 30000
RULE = ("every aggregate (and the rollup of its results) over seeded rows, evaluated as partial aggregates over partitions (random and contiguous cuts, empty parts), by parallel workers, grouped by "
        "hashing (also spilling), grouped by sorting, in prepared statements executed until the plan is generic, next to other aggregates over the same input, and under different session "
        "settings, against a plain serial evaluation; distinct = distinct (aggregate, strategy, answers)")
ASSUMPTIONS = ["sums and averages agree up to rounding when the combination order differs", "points of counters, gauges and time weights that interleave between parts may be refused, never miscomputed"]
STRATS = ["parts", "parts_contiguous", "workers", "hash", "hash_spill", "sort", "prepared", "multi", "rollup_parts", "rollup_workers", "settings"]
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["by:" + s for s in STRATS] + ["partial_plan", "workers_used", "empty_part", "answers_compared", "interleaved_refused"]
PGCONF = "max_parallel_workers = 16\nmax_worker_processes = 24\n"
SETS = ["SET extra_float_digits=0", "SET extra_float_digits=-5", "SET DateStyle='SQL, DMY'", "SET DateStyle='German'", "SET TimeZone='America/New_York'", "SET TimeZone='Europe/Dublin'",
        "SET IntervalStyle='sql_standard'", "SET bytea_output='escape'", "SET DateStyle='Postgres, MDY'; SET TimeZone='Asia/Kathmandu'"]
RESET = "RESET extra_float_digits; RESET DateStyle; RESET TimeZone; RESET IntervalStyle; RESET bytea_output; "
PAR = ("SET LOCAL parallel_setup_cost=0; SET LOCAL parallel_tuple_cost=0; SET LOCAL min_parallel_table_scan_size=0; SET LOCAL max_parallel_workers_per_gather=%d; "
       "SET LOCAL parallel_leader_participation=%s; SET LOCAL debug_parallel_query=%s; SET LOCAL enable_sort=%s; SET LOCAL enable_indexscan=off; SET LOCAL cpu_operator_cost=1; ")


class Worker(SqlWorker):
    def __init__(self, ctx):
        self.P = {}
        self.nprep = 0
        SqlWorker.__init__(self, ctx)

    def parts(self, cols):
        key = ",".join(c[1] for c in cols)
        if key not in self.P:
            self.P[key] = Parts(self, "xp_%d" % len(self.P), "rn int, " + ", ".join("%s %s" % c for c in cols))
        p = self.P[key]
        return p

    def case(self, r, idx, rec):
        names = sorted(cat.KINDS)
        name = names[idx % len(names)]
        k, cols, rows = cat.instance(r, name, n=gen.size(r, 60))
        rec.count("agg:" + k.name)
        agg = k.agg(r, rows).replace("{o}", "")
        accs = k.accs(r, rows)
        st = ["hash", "hash_spill", "sort", "prepared", "multi", "workers"]
        if k.partial:
            st += ["parts", "parts", "parts_contiguous", "settings", "settings"]
        if k.roll and k.pieces != "none":
            st += ["rollup_parts", "rollup_workers"]
        if k.partial and k.parallel:
            st += ["workers", "rollup_workers"] if "rollup_workers" in st else ["workers"]
        s = r.choice(st)
        rec.count("by:" + s)
        getattr(self, "do_" + (s if s not in ("hash", "hash_spill", "sort") else "group"))(r, idx, rec, k, cols, rows, agg, accs, s)

    # -- the reference: one serial pass over the rows in their natural order
    def src(self, cols, rows):
        return "(VALUES %s) d(rn, %s)" % (",".join("(%d,%s)" % (i, ",".join(x)) for i, x in enumerate(rows)), ", ".join(c[0] for c in cols))

    def reference(self, rec, k, cols, rows, agg, accs):
        """-> (answers or None, error)"""
        rws, e = self.err(rec, "WITH w AS MATERIALIZED (SELECT %s a FROM (SELECT * FROM %s ORDER BY rn) q) SELECT %s FROM w" % (
            agg, self.src(cols, rows), ", ".join(x.sql("a") for x in accs)))
        return (rws[0] if rws else None), e

    def compare(self, rec, k, accs, want, got, what, exact=False):
        bad = []
        for x, u, v in zip(accs, want, got):
            if exact and not (k.flush and x.mode != "exact"):
                ok = u == v
            elif k.order:
                if x.name in ("into_values", "unnest"):
                    ok = u == v or sorted(self.vals(u)) == sorted(self.vals(v))
                elif x.name in ("topn", "toolkit_experimental.to_plotly", "toolkit_experimental.to_text", "text"):
                    continue  # ties, and the order of the points, follow the order of the rows
                else:
                    ok = cat.same(x.mode, u, v)
            elif k.name == "hll":
                ok = u == v or (u is not None and v is not None and abs(float(u) - float(v)) <= max(2, .2 * float(v)))
            elif k.name == "udd" and x.name in ("mean",):
                ok = cat.same("f", u, v)
            else:
                ok = cat.same(x.mode, u, v)
            rec.count("answers_compared")
            if not ok:
                bad.append("%s = %s, serially %s" % (x.fn, v, u))
        if bad:
            rec.fail("strategy:%s:%s" % (what, k.name), "%s: %s" % (what, "; ".join(bad[:3])))
        rec.seen((k.name, what, got))

    @staticmethod
    def vals(s):
        return s.split(";") if s else []

    def answers(self, rec, src, accs):
        rws, e = self.err(rec, "%s SELECT %s FROM w" % (src, ", ".join(x.sql("a") for x in accs)))
        return (rws[0] if rws else None), e

    def settle(self, r, idx, rec, k, accs, want, e1, got, e2, what, agg, exact=False, may_refuse=False):
        if e1 and e2:
            rec.count("both_refused")
            return
        if e2 and may_refuse:
            rec.count("interleaved_refused")
            return
        if e1 or e2:
            rec.fail("strategy-error:%s:%s" % (what, k.name), "%s %s: %s; serially: %s" % (agg, what, e2 or "no error", e1 or "no error"))
            return
        self.compare(rec, k, accs, want, got, what, exact)
        if idx < 12:
            rec.sample = "%s %s: %s" % (agg, what, got[:2])

    # -- strategies
    def load(self, r, rec, k, cols, rows, contiguous):
        P = self.parts(cols)
        m = r.choice([1, 2, 4, 4])
        if contiguous:
            cut = sorted(r.randint(0, len(rows)) for _ in range(m - 1))
            ps = list(range(4))
            r.shuffle(ps)
            part = [ps[sum(i >= c for c in cut)] for i in range(len(rows))]
        else:
            ps = r.sample(range(4), m)
            part = [r.choice(ps) for _ in rows]
        if len(set(part)) < 4:
            rec.count("empty_part")
        P.load(rec, [(p, "%d,%s" % (i, ",".join(x))) for i, (p, x) in enumerate(zip(part, rows))])
        inter = not all(b - a <= 1 for q in set(part) for a, b in zip(*(lambda l: (l, l[1:]))([i for i, p in enumerate(part) if p == q])))
        return P, inter

    def do_parts(self, r, idx, rec, k, cols, rows, agg, accs, s, setting=None):
        P, inter = self.load(r, rec, k, cols, rows, s == "parts_contiguous" or (s == "settings" and k.overlap))
        want, e1 = self.reference(rec, k, cols, rows, agg, accs)
        q = "SELECT %s a FROM %s" % (agg, P.name)
        if idx < 400 or r.random() < .1:
            if P.is_partial(rec, q):
                rec.count("partial_plan")
            else:
                rec.fail("harness:not-partial", "no partial plan for " + q)
        if setting:
            # computed under the setting; read without
            self.Q(rec, "DROP TABLE IF EXISTS xk; %s; CREATE TEMP TABLE xk AS %s; %s" % (setting, q, RESET)) if e1 is None else None
            if e1:
                return
            got, e2 = self.answers(rec, "WITH w AS (SELECT a FROM xk)", accs)
        else:
            got, e2 = self.answers(rec, "WITH w AS MATERIALIZED (%s)" % q, accs)
        self.settle(r, idx, rec, k, accs, want, e1, got, e2, s, agg, may_refuse=k.overlap and inter)

    do_parts_contiguous = do_parts

    def do_settings(self, r, idx, rec, k, cols, rows, agg, accs, s):
        setting = r.choice(SETS)
        try:
            self.do_parts(r, idx, rec, k, cols, rows, agg, accs, s, setting)
        finally:
            self.conn.exec(RESET)

    def do_workers(self, r, idx, rec, k, cols, rows, agg, accs, s):
        want, e1 = self.reference(rec, k, cols, rows, agg, accs)
        t = "xw_%d" % self.conn.pid
        self.Q(rec, "DROP TABLE IF EXISTS %s; CREATE UNLOGGED TABLE %s (rn int, %s, pad text) WITH (fillfactor=10, autovacuum_enabled=off, parallel_workers=4); ALTER TABLE %s ALTER pad SET STORAGE PLAIN; INSERT INTO %s SELECT *, repeat('x', %d) FROM %s" % (
            t, t, ", ".join("%s %s" % c for c in cols), t, t, r.choice([100, 1000, 3000]), self.src(cols, rows)))
        pre = PAR % (r.choice([1, 2, 4]), r.choice(["on", "off"]), r.choice(["on", "regress", "off", "off", "off", "off"]) if k.partial and k.parallel else "on", "on")
        q = "SELECT %s a FROM %s" % (agg, t)
        self.Q(rec, "BEGIN; " + pre)
        try:
            if r.random() < .7:
                ex = " ".join(x[0] for x in self.Q(rec, "EXPLAIN (COSTS OFF) " + q))
                if "Gather" in ex:
                    rec.count("gather_plan")
                if "Partial Aggregate" in ex:
                    rec.count("workers_used")
            # a heap scanned in pieces: any row order, any cut
            got, e2 = self.answers(rec, "WITH w AS MATERIALIZED (%s)" % q, accs)
        finally:
            self.conn.exec("ROLLBACK")
        self.settle(r, idx, rec, k, accs, want, e1, got, e2, s, agg)
        self.conn.exec("DROP TABLE IF EXISTS " + t)

    def do_group(self, r, idx, rec, k, cols, rows, agg, accs, s):
        # groups interleaved in one pass
        g = r.choice([2, 3, 5, 20])
        gr = [r.randrange(g) for _ in rows]
        used = sorted(set(gr))
        wants = {}
        for x in used if len(used) <= 4 else r.sample(used, 3):
            wants[x] = self.reference(rec, k, cols, [w for w, y in zip(rows, gr) if y == x], agg, accs)
        pre = "SET LOCAL enable_hashagg=%s; SET LOCAL enable_sort=%s; " % (("off", "on") if s == "sort" else ("on", "off"))
        if s == "hash_spill":
            pre += "SET LOCAL work_mem='64kB'; SET LOCAL hash_mem_multiplier=1; "
        fill = ""
        if s == "hash_spill":
            # so many other groups that the hash table does not fit: rows of our groups are written out and read back
            m = r.randint(1500, 4000)
            fill = " UNION ALL SELECT 1000000+i, 1000+i, %s FROM generate_series(1,%d) i" % (", ".join("(%s)" % c for c in r.choice(rows)), m)
        vals = "SELECT * FROM (VALUES %s) v(rn, gr, %s)" % (",".join("(%d,%d,%s)" % (i, y, ",".join(x)) for i, (x, y) in enumerate(zip(rows, gr))), ", ".join(c[0] for c in cols))
        if fill and r.random() < .5:
            vals = "%s UNION ALL %s" % (fill[len(" UNION ALL "):], vals)
            vals = vals.replace("SELECT 1000000+i, 1000+i, ", "SELECT 1000000+i rn, 1000+i gr, ", 1)
            for i, c in enumerate(cols):
                pass
            body = "(%s) d(rn, gr, %s)" % (vals, ", ".join(c[0] for c in cols))
        else:
            body = "(%s%s) d(rn, gr, %s)" % (vals, fill, ", ".join(c[0] for c in cols))
        sub = "(SELECT * FROM %s OFFSET 0) q" % body if s != "sort" else "(SELECT * FROM %s ORDER BY gr, rn OFFSET 0) q" % body
        self.Q(rec, "BEGIN; " + pre)
        try:
            for x, (want, e1) in wants.items():
                if e1:
                    continue
                got, e2 = self.answers(rec, "WITH w AS MATERIALIZED (SELECT a FROM (SELECT gr, %s a FROM %s GROUP BY gr) z WHERE gr+0=%d)" % (agg, sub, x), accs)
                if e2:
                    self.conn.exec("ROLLBACK; BEGIN; " + pre)
                    if any(w[1] for w in wants.values()) or len(wants) < len(used):
                        rec.count("both_refused")  # some other group is refused
                        continue
                self.settle(r, idx, rec, k, accs, want, e1, got, e2, s, agg, exact=True)
        finally:
            self.conn.exec("ROLLBACK")

    def do_prepared(self, r, idx, rec, k, cols, rows, agg, accs, s):
        n = len(rows)
        self.nprep += 1
        p = "xs%d" % self.nprep
        q = "WITH w AS MATERIALIZED (SELECT %s a FROM (SELECT * FROM %s WHERE rn BETWEEN $1 AND $2 ORDER BY rn) q) SELECT %s FROM w" % (agg, self.src(cols, rows), ", ".join(x.sql("a") for x in accs))
        self.Q(rec, "PREPARE %s(int,int) AS %s" % (p, q))
        self.conn.exec("SET plan_cache_mode=%s" % r.choice(["auto", "force_generic_plan"]))
        try:
            for i in range(r.choice([3, 8])):
                a = r.randrange(n)
                b = r.randint(a, n - 1)
                want, e1 = self.reference(rec, k, cols, rows[a:b + 1], agg, accs)
                got, e2 = self.err(rec, "EXECUTE %s(%d,%d)" % (p, a, b))
                self.settle(r, idx, rec, k, accs, want, e1, got and got[0], e2, s, agg, exact=True)
        finally:
            self.conn.exec("DEALLOCATE %s; RESET plan_cache_mode" % p)

    def do_multi(self, r, idx, rec, k, cols, rows, agg, accs, s):
        # next to others that may share its input or state: itself, filtered, with other parameters, of another kind
        want, e1 = self.reference(rec, k, cols, rows, agg, accs)
        others = [agg + " FILTER (WHERE rn %% %d = 0)" % r.choice([2, 3]), k.agg(r, rows).replace("{o}", ""), agg, "count(*)"]
        ty = [c[1] for c in cols]
        if ty == ["timestamptz", "float8"]:
            others += ["timevector(t, v)", "counter_agg(t, v)", "gauge_agg(t, v)", "time_weight('LOCF', t, v)", "state_agg(t, v::text)", "approx_count_distinct(t)"]
        if ty == ["float8"]:
            others += ["stats_agg(x)", "percentile_agg(x)", "tdigest(10, x)", "max_n(x, 3)", "stats_agg_no_inv(x)", "approx_count_distinct(x)"]
        pick = r.sample(others, min(len(others), r.randint(1, 4)))
        cols_ = ["%s o%d" % (o, i) for i, o in enumerate(pick)]
        cols_.insert(r.randint(0, len(cols_)), agg + " a")
        got, e2 = self.answers(rec, "WITH w AS MATERIALIZED (SELECT %s FROM (SELECT * FROM %s ORDER BY rn) q)" % (", ".join(cols_), self.src(cols, rows)), accs)
        if e2 and not e1:
            rec.count("both_refused")
            return
        self.settle(r, idx, rec, k, accs, want, e1, got, e2, s, agg, exact=True)

    def pieces(self, r, k, cols, rows, agg):
        """SQL of the pieces' summaries: (i, a)"""
        n = len(rows)
        m = r.randint(1, min(8, n))
        if k.pieces == "time":
            cut = sorted(r.sample(range(1, n), m - 1)) if m > 1 else []
            g = [sum(i >= c for c in cut) for i in range(n)]
        else:
            g = [r.randrange(m) for _ in rows]
        return "SELECT g, %s a FROM (SELECT * FROM (VALUES %s) v(rn, g, %s) ORDER BY rn) d GROUP BY g" % (
            agg, ",".join("(%d,%d,%s)" % (i, y, ",".join(x)) for i, (x, y) in enumerate(zip(rows, g))), ", ".join(c[0] for c in cols)), len(set(g))

    def do_rollup_parts(self, r, idx, rec, k, cols, rows, agg, accs, s):
        src, m = self.pieces(r, k, cols, rows, agg)
        key = "roll " + k.ty
        if key not in self.P:
            self.P[key] = Parts(self, "xr_%d" % len(self.P), "i int, a " + k.ty)
        P = self.P[key]
        P.ensure()
        if s == "rollup_workers":
            t = "xr_w%d" % self.conn.pid
            self.Q(rec, "DROP TABLE IF EXISTS %s; CREATE UNLOGGED TABLE %s (i int, a %s, pad text) WITH (fillfactor=10, autovacuum_enabled=off, parallel_workers=4); ALTER TABLE %s ALTER pad SET STORAGE PLAIN" % (t, t, k.ty, t))
        _, e = self.err(rec, "TRUNCATE %s; INSERT INTO %s SELECT (g*7+%d)%%%d, g, a FROM (%s) z" % (P.name, P.name, r.randrange(4), r.choice([1, 2, 3, 4]), src))
        if e:
            rec.count("both_refused")
            return
        if r.random() < .3:
            self.Q(rec, "INSERT INTO %s VALUES (%d, 99, NULL)" % (P.name, r.randrange(4)))
        roll = k.roll.replace("{a}", "a")
        want, e1 = self.answers(rec, "WITH w AS MATERIALIZED (SELECT %s a FROM (SELECT * FROM %s ORDER BY i) z)" % (roll, P.name), accs)
        if s == "rollup_parts":
            q = "SELECT %s a FROM %s" % (roll, P.name)
            if k.partial and (idx < 400 or r.random() < .1):
                rec.count("partial_plan" if P.is_partial(rec, q) else "not_partial")
            got, e2 = self.answers(rec, "WITH w AS MATERIALIZED (%s)" % q, accs)
        else:
            self.Q(rec, "INSERT INTO %s SELECT i, a, repeat('x', 2000) FROM %s; BEGIN; %s" % (t, P.name, PAR % (r.choice([1, 2, 4]), r.choice(["on", "off"]), r.choice(["on", "off", "off"]), "on")))
            try:
                if "Partial Aggregate" in " ".join(x[0] for x in self.Q(rec, "EXPLAIN (COSTS OFF) SELECT %s a FROM %s" % (roll, t))):
                    rec.count("workers_used")
                got, e2 = self.answers(rec, "WITH w AS MATERIALIZED (SELECT %s a FROM %s)" % (roll, t), accs)
            finally:
                self.conn.exec("ROLLBACK; DROP TABLE IF EXISTS " + t)
        self.settle(r, idx, rec, k, accs, want, e1, got, e2, s, roll)

    do_rollup_workers = do_rollup_parts
