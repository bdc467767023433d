"""An answer depends only on its arguments: not on the search path, role, transaction, plan, earlier errors or a re-created extension."""
import re
from run import SqlWorker
from pg import *
import cat, gen, pg as pgm

ID = "Y01"
QUICK, THOROUGH = 800, 30000
QUICK_SECS = 60
CTX = ["empty_path", "pg_catalog_path", "other_schema_path", "decoys_ahead", "temp_types", "unprivileged", "security_definer", "read_only", "serializable", "small_memory", "odd_plans", "after_errors",
       "after_subxact_errors", "in_function", "in_exception_block", "prepared_generic", "cursor", "after_interrupt", "second_run", "created_in_transaction", "after_other_settings"]
PER_DB = ["recreated", "recreated_elsewhere_path", "moved_schema_back"]
RULE = ("seeded aggregates of every kind with every answer, pipelines with mapping functions, lambdas and utility functions, written with every name qualified and run in an ordinary session and again under: "
        + ", ".join(c.replace("_", " ") for c in CTX + PER_DB) + "; the answers must be the same text; distinct = (statement, surroundings)")
ASSUMPTIONS = ["TimeZone, DateStyle and the like are the same in both sessions: they are part of how PostgreSQL itself reads and writes times"]
MUST_OBSERVE = ["ctx:" + c for c in CTX + PER_DB] + ["agg:" + k for k in cat.KINDS] + ["pipelines", "answers_compared", "mapping_functions"]

PIPES = [
    "SELECT (SELECT string_agg(z::text, ';') FROM unnest(timevector(t, v) -> map_series('app.ident')) z) FROM app.src",
    "SELECT (SELECT string_agg(z::text, ';') FROM unnest(timevector(t, v) -> (sort() -> map_series('app.twice'::regproc) -> delta())) z) FROM app.src",
    "SELECT (SELECT string_agg(z::text, ';') FROM unnest(timevector(t, v) -> map_data('app.half')) z) FROM app.src",
    "SELECT (timevector(t, v) -> map_series('app.twice') -> map_data('app.half'))::text FROM app.src",
    "SELECT (SELECT string_agg(z::text, ';') FROM unnest(timevector(t, v) -> map($$ ($time + '1 day'i, $value ^ 2) $$) -> sort() -> fill_to('12 hours', 'interpolate')) z) FROM app.src",
    "SELECT (timevector(t, v) -> filter($$ $time > '2024-01-03 00:00:00+00't and $value < 4 $$) -> num_vals())::text FROM app.src",
    "SELECT (timevector(t, v) -> filter($$ $time > '2024-01-03 00:00:00't and $time < '05/01/2024 11:00't $$) -> num_vals())::text FROM app.src",
    "SELECT (SELECT string_agg(z::text, ';') FROM unnest(timevector(t, v) -> map($$ ($time + '1 2:3'i, $value) $$)) z) FROM app.src",
    "SELECT f64_lambda($$ let $x = 3; $x * $value $$, '2024-01-01', 4)::text || bool_lambda($$ $time = '2024-01-01 00:00:00't $$, '2024-01-01', 4)::text || interval_lambda($$ '-1 2:3:4'i $$, '2024-01-01', 4)::text",
    "SELECT (timevector(t, v) -> (sort() -> toolkit_experimental.lttb(4)))::text FROM app.src",
    "SELECT (timevector(t, v) -> sort() -> delta() -> average())::text || (timevector(t, v) -> (sort() -> delta()) -> toolkit_experimental.stats_agg())::text FROM app.src",
    "SELECT to_text(timevector(t, v), '{{TIMES|json_encode()|safe}}') || to_plotly(timevector(t, v)) FROM app.src",
    "SELECT f64_lambda($$ let $x = 3; $x * $value $$, '2024-01-01', 4)::text || bool_lambda($$ $time = '2024-01-01 00:00:00+00't $$, '2024-01-01', 4)::text || interval_lambda($$ '1 month 2 days'i $$, '2024-01-01', 4)::text",
    "SELECT to_epoch('2024-02-10 12:00:00+00')::text || days_in_month('2024-02-10') || month_normalize(1000, '2024-02-10 00:00:00+00', 30)",
    "SELECT string_agg(x::text, ',' ORDER BY x) FROM (SELECT unnest((timevector(t, v) -> (sort() -> map_series('app.ident'))))::text x FROM app.src) q",
    "SELECT (SELECT string_agg(z::text, ';') FROM topn(raw_mcv_agg(3, t), 2, t) z) FROM (SELECT t FROM app.src ORDER BY t) q GROUP BY ()",
    "SELECT distinct_count(rollup(h))::text FROM (SELECT hyperloglog(64, v) h FROM app.src UNION ALL SELECT hyperloglog(64, v + 1) FROM app.src) q",
    "SELECT approx_percentile(0.5, ('(version:1,alpha:0.01,max_buckets:20,num_buckets:1,compactions:0,count:2,sum:4.0,zero_bucket_count:0,neg_indexes_bytes:0,neg_buckets_bytes:0,pos_indexes_bytes:1,pos_buckets_bytes:1,negative_indexes:[],negative_counts:[],positive_indexes:[70],positive_counts:[4])')::uddsketch)::text",
    "SELECT (timevector(t, v) -> toolkit_pipe_variance)::text FROM app.src".replace("toolkit_pipe_variance", "(sort() -> abs())"),
]
PIPES = [p for p in PIPES if "topn(raw" not in p and "approx_percentile(0.5, ('(" not in p]

SRC = """CREATE SCHEMA app; CREATE SCHEMA decoy; CREATE SCHEMA elsewhere; GRANT USAGE ON SCHEMA app, decoy, elsewhere, toolkit_experimental TO public;
CREATE TABLE app.src AS SELECT '2024-01-01'::timestamptz + (i * 5 % 8) * interval '7 hours' t, (i * 3 % 7)::float8 - 1.5 v FROM generate_series(1, 8) i; GRANT SELECT ON app.src TO public;
CREATE FUNCTION app.ident(public.timevector_tstz_f64) RETURNS public.timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT $1';
CREATE FUNCTION app.twice(public.timevector_tstz_f64) RETURNS public.timevector_tstz_f64 LANGUAGE sql IMMUTABLE AS 'SELECT public.timevector(t.time, t.value OPERATOR(pg_catalog.*) 2::pg_catalog.float8) FROM public.unnest($1) t';
CREATE FUNCTION app.half(float8) RETURNS float8 LANGUAGE plpgsql IMMUTABLE AS 'BEGIN RETURN $1 OPERATOR(pg_catalog./) 2::pg_catalog.float8; END'"""
DECOY_TYPES = ["timevector_tstz_f64", "unstabletimevectorpipeline", "statssummary1d", "stateagg", "hyperloglog", "uddsketch", "countersummary", "lambda", "heartbeatagg", "candlestick"]
DECOY_FUNCS = ["date_trunc(text, timestamptz) RETURNS timestamptz LANGUAGE sql AS 'SELECT NULL::timestamptz'", "timestamptz_pl_interval(timestamptz, interval) RETURNS timestamptz LANGUAGE sql AS 'SELECT $1'",
               "arrow_run_pipeline(a int, b int) RETURNS int LANGUAGE sql AS 'SELECT 1'", "num_vals(a public.timevector_tstz_f64) RETURNS int LANGUAGE sql AS 'SELECT -1'",
               "rollup(a int) RETURNS int LANGUAGE sql AS 'SELECT -1'", "textin(cstring) RETURNS text LANGUAGE internal AS 'textin'", "float8_eq(float8, float8) RETURNS bool LANGUAGE sql AS 'SELECT false'",
               "float8pl(float8, float8) RETURNS float8 LANGUAGE sql AS 'SELECT 0::float8'", "extract(text, timestamptz) RETURNS numeric LANGUAGE sql AS 'SELECT 7::numeric'",
               "timestamptz_cmp(timestamptz, timestamptz) RETURNS int LANGUAGE sql AS 'SELECT 1'", "hashtext(text) RETURNS int LANGUAGE sql AS 'SELECT 1'", "texteq(text, text) RETURNS bool LANGUAGE sql AS 'SELECT false'"]
PLAN_FLAGS = ["enable_hashagg", "enable_sort", "enable_material", "enable_memoize", "enable_seqscan", "enable_incremental_sort", "enable_presorted_aggregate", "geqo"]
BAD = ["SELECT public.average('garbage'::public.statssummary1d)", "SELECT 1/0", "SELECT public.timevector(NULL::timestamptz, x) FROM pg_catalog.generate_series(1.0::float8, 3) x",
       "SELECT toolkit_experimental.map_series('app.nosuch')", "SELECT toolkit_experimental.map_series('app.half')", "SELECT toolkit_experimental.map_data('app.ident')",
       "SELECT public.uddsketch(0, 2.0, 1)", "SELECT public.rollup(s) FROM (SELECT public.time_weight('locf', now(), 1) s UNION ALL SELECT public.time_weight('linear', now(), 1)) q",
       "SELECT toolkit_experimental.f64_lambda('$$ 1 +', now(), 1)", "SELECT public.mcv_agg(3, x ORDER BY 1/(x-2)) FROM generate_series(1,4) x", "SELECT public.tdigest(0, 1.0)",
       "SELECT public.hyperloglog(3, 1)", "SELECT toolkit_experimental.f64_lambda('true and 3 = ', now(), 1)", "SELECT 'nope'::public.hyperloglog", "SELECT public.interpolated_rate(NULL, now(), '-1 day', NULL, NULL)",
       "SELECT public.stats_agg(1/(x-3)) FROM generate_series(1,5) x", "SELECT public.rollup(c) FROM (SELECT public.counter_agg(now(), x) c FROM generate_series(1,3) x) q"]


SETTINGS = [("TimeZone", ["America/St_Johns", "Asia/Kathmandu", "Pacific/Apia"]), ("DateStyle", ["SQL, DMY", "German, YMD", "Postgres, DMY"]), ("IntervalStyle", ["sql_standard", "iso_8601", "postgres_verbose"]),
            ("extra_float_digits", ["-15", "0", "-3"]), ("bytea_output", ["escape"])]

PGCONF = ""


def make_server(conf):
    s = pgm.Server(conf)
    c = s.connect()
    c.exec("CREATE ROLE plain LOGIN")
    c.exec("CREATE DATABASE y01base TEMPLATE postgres")
    c.close()
    c = s.connect(db="y01base")
    c.exec(SRC)
    c.exec("SET search_path=pg_catalog")
    for t in DECOY_TYPES:
        c.exec("CREATE TYPE decoy.%s AS (x int)" % t)
    for f in DECOY_FUNCS:
        c.exec("CREATE FUNCTION decoy.%s" % f)
    c.close()
    return s


class Worker(SqlWorker):
    def __init__(self, ctx):
        super().__init__(ctx)
        pid = self.conn.val("SELECT pg_backend_pid()")
        self.db = "y01_%s" % pid
        self.conn.exec("CREATE DATABASE %s TEMPLATE y01base STRATEGY file_copy" % self.db)
        c = self.session()
        rows = c.query("SELECT p.proname, n.nspname FROM pg_proc p JOIN pg_depend d ON d.objid=p.oid AND d.classid='pg_proc'::regclass AND d.deptype='e' AND d.refclassid='pg_extension'::regclass "
                       "JOIN pg_extension e ON e.oid=d.refobjid AND e.extname='timescaledb_toolkit' JOIN pg_namespace n ON n.oid=p.pronamespace ORDER BY n.nspname DESC")
        self.funs = {}
        for f, n in rows:
            self.funs[f] = n  # public wins
        for f, n in rows:
            if n == "public":
                self.funs[f] = n
        self.types = dict(c.query("SELECT t.typname, n.nspname FROM pg_type t JOIN pg_depend d ON d.objid=t.oid AND d.classid='pg_type'::regclass AND d.deptype='e' AND d.refclassid='pg_extension'::regclass "
                                  "JOIN pg_extension e ON e.oid=d.refobjid AND e.extname='timescaledb_toolkit' JOIN pg_namespace n ON n.oid=t.typnamespace WHERE t.typname NOT LIKE '\\_%'"))
        c.close()
        self.fre = re.compile(r"(?<![\w.\"'])(%s)\(" % "|".join(sorted(map(re.escape, self.funs), key=len, reverse=True)))
        self.tre = re.compile(r"::(%s)\b" % "|".join(sorted(map(re.escape, self.types), key=len, reverse=True)))

    def session(self, user="postgres"):
        c = self.ctx.server.connect(db=self.db, user=user)
        c.exec("SET statement_timeout='30s'; SET client_min_messages=error; SET search_path=pg_catalog, public, toolkit_experimental")
        return c

    def qual(self, q):
        # leave literals and dollar-quoted text alone
        parts = re.split(r"('(?:[^']|'')*'|\$\$.*?\$\$)", q)
        for i in range(0, len(parts), 2):
            p = self.fre.sub(lambda m: "%s.%s(" % (self.funs[m.group(1)], m.group(1)), parts[i])
            p = self.tre.sub(lambda m: "::%s.%s" % (self.types[m.group(1)], m.group(1)), p)
            parts[i] = p.replace(" -> ", " OPERATOR(public.->) ")
        return "".join(parts)

    def case(self, r, idx, rec):
        c = self.session()
        try:
            ask = []
            if idx % 3 == 2:
                for p in r.sample(PIPES, 5):
                    q = self.qual(p)
                    ask.append(q)
                    rec.count("pipelines")
                    if "app." in q.replace("app.src", ""):
                        rec.count("mapping_functions")
            else:
                names = sorted(cat.KINDS)
                k, cols, rows = cat.instance(r, names[(idx // 3 * 2 + idx % 3) % len(names)], n=gen.size(r, 40))
                rec.count("agg:" + k.name)
                agg = self.qual(k.agg(r, rows).replace("{o}", ""))
                vals = "(VALUES %s) d(%s)" % (",".join("(%s)" % ",".join(x) for x in rows), ", ".join(x[0] for x in cols))
                accs = k.accs(r, rows)
                ask = ["SELECT %s FROM (SELECT %s a FROM %s) q" % (self.qual(f), agg, vals) for a in r.sample(accs, min(len(accs), 5)) for f in [a.sql("a")] + ([a.arrow_sql("a")] if a.arrow else [])]
                if "state" not in k.name:  # (the order of the durations a state_agg stores is that of a randomly seeded hash map)
                    ask.append("SELECT (%s)::text FROM %s" % (agg, vals))
            base = []
            for q in ask:
                try:
                    base.append((q, c.query(q)))
                except PgError as e:
                    rec.count("refused" if e.code != "42883" else "not_qualified")
                    if idx % 3 == 2:
                        rec.fail("pipeline-refused", "%s: %s" % (q, e))
            if not base:
                return
        finally:
            c.close()
        per_db = idx % 40 == 17 or idx % 40 == 23 or idx % 40 == 38
        ctxs = [{17: "recreated", 23: "recreated_elsewhere_path", 38: "moved_schema_back"}[idx % 40]] if per_db else r.sample(CTX, 3)
        for name in ctxs:
            rec.count("ctx:" + name)
            self.surround(r, rec, name, base)

    def surround(self, r, rec, name, base):
        rec.sql("-- " + name)
        c = self.session("plain" if name == "unprivileged" else "postgres")
        try:
            run = getattr(self, "c_" + name)(r, c, base) or c.query
            for i, (q, want) in enumerate(base):
                rec.sql(q)
                try:
                    got = run(q)
                except PgError as e:
                    rec.fail("refused:" + name, "%s: %s, where an ordinary session answers %s: %s" % (name, e, str(want)[:200], q))
                    continue
                rec.count("answers_compared")
                rec.seen((name, q))
                if got != want:
                    rec.fail("changed:" + name, "%s: %s gives %s, an ordinary session %s" % (name, q, str(got)[:600], str(want)[:600]))
            if rec.sample is None:
                rec.sample = "%s: %s" % (name, base[0][0][:150])
        finally:
            c.close()

    # each changes what surrounds the statements; it may return how to run them

    def c_empty_path(self, r, c, base):
        c.exec("SET search_path=''")

    def c_pg_catalog_path(self, r, c, base):
        c.exec("SET search_path=pg_catalog, pg_temp")

    def c_other_schema_path(self, r, c, base):
        c.exec("SET search_path=elsewhere")

    def c_decoys_ahead(self, r, c, base):
        c.exec("SET search_path=pg_catalog, decoy, public, toolkit_experimental" if r.random() < .5 else "SET search_path=decoy, public, toolkit_experimental")

    def c_temp_types(self, r, c, base):
        for t in r.sample(DECOY_TYPES, 5) + ["timevector_tstz_f64_"]:
            c.exec("CREATE TEMP TABLE %s(x int)" % t)
        if r.random() < .5:
            c.exec("CREATE TEMP TABLE float8(x int); CREATE TEMP TABLE timestamptz_(x int)")
            c.exec("SET search_path=pg_catalog, pg_temp, public")

    def c_unprivileged(self, r, c, base):
        pass

    def c_security_definer(self, r, c, base):
        c.exec("SET search_path=''")
        def run(q):
            c.exec("CREATE OR REPLACE FUNCTION pg_temp.f() RETURNS SETOF text LANGUAGE sql SECURITY DEFINER SET search_path='' AS $body$ %s $body$; ALTER FUNCTION pg_temp.f() OWNER TO plain" % q)
            return c.query("SELECT * FROM pg_temp.f()")
        return run

    def c_read_only(self, r, c, base):
        c.exec("BEGIN READ ONLY")

    def c_serializable(self, r, c, base):
        c.exec("BEGIN ISOLATION LEVEL SERIALIZABLE READ ONLY DEFERRABLE")

    def c_small_memory(self, r, c, base):
        c.exec("SET work_mem='64kB'; SET maintenance_work_mem='1MB'; SET hash_mem_multiplier=1; SET temp_buffers='800kB'; SET logical_decoding_work_mem='64kB'")

    def c_odd_plans(self, r, c, base):
        for f in PLAN_FLAGS:
            c.exec("SET %s=%s" % (f, r.choice(["on", "off"])))
        c.exec("SET from_collapse_limit=1; SET join_collapse_limit=1; SET constraint_exclusion=on; SET row_security=off; SET plan_cache_mode=force_generic_plan; SET check_function_bodies=off; "
               "SET session_replication_role=replica; SET array_nulls=on; SET transform_null_equals=off; SET synchronize_seqscans=off; SET backslash_quote=on; SET xmlbinary=hex; SET lc_numeric='C'")

    def errs(self, r, c):
        for q in r.sample(BAD, 5):
            try:
                c.query(q)
            except PgError:
                pass

    def c_after_errors(self, r, c, base):
        c.exec("SET search_path=%s" % r.choice(["''", "pg_catalog", "elsewhere"]))
        for q, _ in base[:2]:
            try:
                c.query(q + " WHERE 1/0 = 1")
            except PgError:
                pass
        self.errs(r, c)
        def run(q):
            self.errs(r, c)
            return c.query(q)
        return run

    def c_after_subxact_errors(self, r, c, base):
        c.exec("BEGIN")
        def run(q):
            for b in r.sample(BAD, 3):
                c.exec("SAVEPOINT s")
                try:
                    c.query(b)
                except PgError:
                    c.exec("ROLLBACK TO s")
            return c.query(q)
        return run

    def c_in_function(self, r, c, base):
        def run(q):
            c.exec("SET search_path=''")
            c.exec("CREATE OR REPLACE FUNCTION pg_temp.g() RETURNS SETOF text LANGUAGE plpgsql AS $body$ BEGIN RETURN QUERY %s; END $body$" % q)
            c.query("SELECT pg_temp.g()")
            return c.query("SELECT pg_temp.g()")
        return run

    def c_in_exception_block(self, r, c, base):
        def run(q):
            c.exec("CREATE OR REPLACE FUNCTION pg_temp.g() RETURNS SETOF text LANGUAGE plpgsql AS $body$ BEGIN BEGIN EXECUTE $bad$ %s $bad$; EXCEPTION WHEN OTHERS THEN NULL; END; "
                   "BEGIN RETURN QUERY %s; EXCEPTION WHEN division_by_zero THEN NULL; END; END $body$" % (r.choice(BAD), q))
            return c.query("SELECT pg_temp.g()")
        return run

    def c_prepared_generic(self, r, c, base):
        c.exec("SET plan_cache_mode=%s" % r.choice(["force_generic_plan", "force_custom_plan"]))
        n = [0]
        def run(q):
            n[0] += 1
            c.exec("PREPARE p%d AS %s" % (n[0], q))
            c.query("EXECUTE p%d" % n[0])
            c.exec("SET search_path=elsewhere")
            return c.query("EXECUTE p%d" % n[0])
        return run

    def c_cursor(self, r, c, base):
        n = [0]
        def run(q):
            n[0] += 1
            if r.random() < .5:
                c.exec("BEGIN; DECLARE c%d SCROLL CURSOR WITH HOLD FOR %s; COMMIT" % (n[0], q))
            else:
                c.exec("BEGIN; DECLARE c%d CURSOR FOR %s" % (n[0], q))
            rows = c.query("FETCH ALL FROM c%d" % n[0])
            c.exec("COMMIT")
            return rows
        return run

    def c_after_interrupt(self, r, c, base):
        c.exec("SET statement_timeout='15ms'")
        for q in ("SELECT public.average(public.stats_agg(x)) FROM pg_catalog.generate_series(1::float8, 1e7) x", "SELECT public.num_vals(public.uddsketch(100, 0.01, x)) FROM pg_catalog.generate_series(1::float8, 1e7) x",
                  "SELECT public.distinct_count(public.hyperloglog(4096, x)) FROM pg_catalog.generate_series(1, 10000000) x",
                  "SELECT public.timevector(t, 1) OPERATOR(public.->) toolkit_experimental.map_series('app.twice') FROM pg_catalog.generate_series('2020-01-01'::timestamptz, '2024-01-01', '1 minute') t"):
            try:
                c.query(q)
            except PgError:
                pass
        c.exec("SET statement_timeout='30s'")

    def c_second_run(self, r, c, base):
        def run(q):
            for _ in range(4):
                c.query(q)
            c.exec("DISCARD %s" % r.choice(["PLANS", "ALL", "TEMP", "SEQUENCES"]))
            c.exec("SET search_path=pg_catalog")
            return c.query(q)
        return run

    def c_created_in_transaction(self, r, c, base):
        # the statement runs where its own transaction made the objects it maps with
        c.exec("BEGIN; CREATE SCHEMA app2; ALTER FUNCTION app.ident(public.timevector_tstz_f64) SET SCHEMA app2; ALTER FUNCTION app2.ident(public.timevector_tstz_f64) SET SCHEMA app")

    def c_after_other_settings(self, r, c, base):
        """the same statements under other settings first, in the same session: what they gave there must not be remembered"""
        keep = {k: c.val("SHOW " + k) for k, _ in SETTINGS}
        def run(q):
            for k, vs in SETTINGS:
                c.exec("SET %s='%s'" % (k, r.choice(vs)))
            try:
                c.query(q)
            except PgError:
                pass
            for k, v in keep.items():
                c.exec("SET %s='%s'" % (k, v))
            return c.query(q)
        return run

    def recreate(self, c, path):
        c.exec("DROP FUNCTION app.ident, app.twice; DROP FUNCTION decoy.num_vals; DROP EXTENSION timescaledb_toolkit; SET search_path=public; CREATE EXTENSION timescaledb_toolkit; GRANT USAGE ON SCHEMA toolkit_experimental TO public")
        for q in SRC.split(";\n"):
            if "app.ident(" in q or "app.twice(" in q:
                c.exec(q)
        c.exec("CREATE FUNCTION decoy." + [f for f in DECOY_FUNCS if f.startswith("num_vals")][0])
        c.exec("SET search_path=" + path)

    def use_first(self, c, base):
        for q, _ in base:
            c.query(q)
        for p in PIPES[:4]:
            c.query(self.qual(p))

    def c_recreated(self, r, c, base):
        self.use_first(c, base)
        self.recreate(c, "pg_catalog, public, toolkit_experimental")

    def c_recreated_elsewhere_path(self, r, c, base):
        if r.random() < .5:
            self.use_first(c, base)
        self.recreate(c, "elsewhere")

    def c_moved_schema_back(self, r, c, base):
        """the extension is not relocatable: trying to move it must change nothing"""
        self.use_first(c, base)
        try:
            c.exec("ALTER EXTENSION timescaledb_toolkit SET SCHEMA elsewhere")
            c.exec("ALTER EXTENSION timescaledb_toolkit SET SCHEMA public")
        except PgError:
            pass
