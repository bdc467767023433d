"""A dump restored into another database keeps every summary, view, index and function, with every answer."""
import os, subprocess
from run import SqlWorker
from pg import *
import cat, gen, pg as pgm

ID = "R01"
QUICK, THOROUGH = 72, 2400
QUICK_SECS = 80
RULE = ("seeded databases holding summaries of every type (also over enums, composites, domains and collated text of the user's own), views over their accessors in function and arrow form, "
        "materialized views, expression indexes, generated columns, column defaults and SQL functions that hold toolkit expressions, dumped with PostgreSQL's own pg_dump and restored "
        "(under the empty search_path of its scripts) into a database with another locale provider, collation or encoding, marked as a template, or whose object ids differ; every view, "
        "stored value and function must answer what it answered before; distinct = (kinds, target)")
ASSUMPTIONS = ["PostgreSQL 16, client and server", "text is ASCII when the target's encoding is not UTF8"]
TARGETS = {
    "plain": "",
    "icu": "LOCALE_PROVIDER icu ICU_LOCALE 'en-US' LOCALE 'C.UTF-8'",
    "icu-rules": "LOCALE_PROVIDER icu ICU_LOCALE 'sv' LOCALE 'C'",
    "c": "LOCALE 'C'",
    "template": "IS_TEMPLATE true",
    "latin1": "ENCODING 'LATIN1' LOCALE 'C'",
    "sql_ascii": "ENCODING 'SQL_ASCII' LOCALE 'C'",
}
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["target:" + t for t in TARGETS] + [
    "user:enum", "user:oddly named", "user:composite", "user:domain", "user:collated", "views", "answers_compared", "matviews", "indexes", "generated", "functions", "defaults", "other_schema", "restores", "inserts"]

USER = [
    # name, the values' type and how to make one from an int, aggregate over x, answers
    ("enum", "app.mood", "('{sad,ok,happy}'::app.mood[])[1 + (%s %% 3)::int]", [
        ("raw_freq_agg(0.2, x)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ';' ORDER BY z::text COLLATE \"C\") FROM into_values({a}, 'ok'::app.mood) z)", "min_frequency({a}, 'ok'::app.mood)::text"]),
        ("raw_mcv_agg(3, x)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ',') FROM topn({a}, 2, 'ok'::app.mood) z)", "max_frequency({a}, 'sad'::app.mood)::text"]),
        ("hyperloglog(64, x)", "hyperloglog", ["distinct_count({a})::text", "distinct_count(rollup(ARRAY[{a}], x))::text"]),
        ("max_n_by(i, x, 2)", "maxbyints", ["(SELECT string_agg(z::text, ';') FROM into_values({a}, 'ok'::app.mood) z)"]),
        ("min_n_by(f, x, 3)", "minbyfloats", ["(SELECT string_agg(z::text, ';') FROM into_values({a}, 'ok'::app.mood) z)"]),
    ]),
    ("oddly named", 'app."od""d ''t\u00fdpe"', "('{a,b,c,d}'::app.\"od\"\"d 't\u00fdpe\"[])[1 + (%s %% 4)::int]", [
        ("raw_mcv_agg(3, x)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ',') FROM topn({a}, 2, NULL::app.\"od\"\"d 't\u00fdpe\") z)"]),
        ("hyperloglog(64, x)", "hyperloglog", ["distinct_count({a})::text"]),
    ]),
    ("composite", "app.pair", "ROW(%s, 'k' || %s)::app.pair", [
        ("raw_freq_agg(0.2, x)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ';' ORDER BY z::text COLLATE \"C\") FROM into_values({a}, NULL::app.pair) z)"]),
        ("raw_mcv_agg(4, x)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ',') FROM topn({a}, 1, NULL::app.pair) z)"]),
        ("min_n_by(t, x, 2)", "minbytimes", ["(SELECT string_agg(z::text, ';') FROM into_values({a}, NULL::app.pair) z)"]),
    ]),
    ("domain", "app.small", "(%s %% 5)::app.small", [
        ("raw_mcv_agg(3, x)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ',') FROM topn({a}, 2, 1::app.small) z)"]),
        ("max_n_by(f, x, 2)", "maxbyfloats", ["(SELECT string_agg(z::text, ';') FROM into_values({a}, 1::app.small) z)"]),
    ]),
    ("collated", "text", "'k' || %s", [
        ("hyperloglog(64, x COLLATE app.de)", "hyperloglog", ["distinct_count({a})::text"]),
        ("hyperloglog(64, x COLLATE \"C\")", "hyperloglog", ["distinct_count({a})::text"]),
        ("raw_mcv_agg(3, x COLLATE app.de)", "spacesavingaggregate", ["(SELECT string_agg(z::text, ',') FROM topn({a}, 1, ''::text) z)"]),
    ]),
]
GENERATED = [("stats1d", "average(a)", "float8"), ("udd", "num_vals(a)", "float8"), ("tdigest", "max_val(a)", "float8"), ("counter", "delta(a)", "float8"), ("hll", "distinct_count(a)", "bigint"),
             ("candlestick", "high(a)", "float8"), ("timevector", "a -> num_vals()", "float8"), ("timevector", "a -> (sort() -> lttb(5)) -> num_vals()", "float8"),
             ("max_n_f", "into_array(a)", "float8[]"), ("gauge", "a -> delta()", "float8"), ("time_weight_locf", "average(a)", "float8"), ("stats2d", "a -> slope()", "float8"),
             ("min_n_by_i", "a", "minbyints"), ("mcv_text", "min_frequency(a, 'w1'::text)", "float8")]
PIPES = ["sort() -> delta()", "sort() -> fill_to('1 hour','locf')", "map($$ ($time, $value * 2 + 1) $$)", "filter($$ $value > 0 $$) -> abs()", "sort() -> lttb(7)", "ceil() -> round()", "power(2) -> add(1.5)"]
FUNCS = [
    ("fa(float8[]) RETURNS float8 LANGUAGE sql IMMUTABLE BEGIN ATOMIC SELECT average(stats_agg(x)) + approx_percentile(0.5, percentile_agg(x)) FROM unnest($1) x; END", "app.fa(ARRAY[1,2,4.5])"),
    ("fb(timestamptz[]) RETURNS float8 LANGUAGE sql IMMUTABLE BEGIN ATOMIC SELECT timevector(x, extract(epoch from x)::float8) -> sort() -> delta() -> sum() FROM unnest($1) x; END",
     "app.fb(ARRAY['2024-01-01','2024-01-05','2024-02-01']::timestamptz[])"),
    ("fc(timestamptz[]) RETURNS text LANGUAGE sql BEGIN ATOMIC SELECT (counter_agg(x, 1 + extract(epoch from x)::float8) -> with_bounds('[2023-01-01,2025-01-01)') -> extrapolated_delta('prometheus'))::text FROM unnest($1) x; END",
     "app.fc(ARRAY['2024-01-01','2024-01-05','2024-02-01']::timestamptz[])"),
    ("fd(float8) RETURNS text LANGUAGE sql BEGIN ATOMIC SELECT (uddsketch(50, 0.01, x) -> approx_percentile($1))::text FROM generate_series(1, 50) x; END", "app.fd(0.3)"),
    ("fe(timestamptz) RETURNS float8 LANGUAGE sql BEGIN ATOMIC SELECT to_epoch($1) + days_in_month($1) + month_normalize(30, $1, 28); END", "app.fe('2024-02-10')"),
]


class Worker(SqlWorker):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.pid = self.conn.val("SELECT pg_backend_pid()")
        self.k = 0
        self.src = {}
        self.env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": ctx.server.dir, "PGHOST": ctx.server.dir, "PGPORT": str(pgm.PORT), "PGUSER": "postgres"}

    def to(self, db):
        c = self.ctx.server.connect(db=db, timeout=120.0)
        c.exec("SET statement_timeout='60s'; SET client_min_messages=error")
        return c

    def source(self, schema):
        """a template with the extension in this schema"""
        if schema not in self.src:
            db = "r01_src_%s_%d" % (self.pid, len(self.src))
            self.conn.exec("CREATE DATABASE %s TEMPLATE template0 STRATEGY file_copy" % db)
            c = self.to(db)
            if schema != "public":
                c.exec("CREATE SCHEMA %s" % schema)
            c.exec("CREATE EXTENSION timescaledb_toolkit" + (" WITH SCHEMA " + schema if schema != "public" else ""))
            c.close()
            self.src[schema] = db
        return self.src[schema]

    def case(self, r, idx, rec):
        targets = sorted(TARGETS)
        target = targets[idx % len(targets)]
        schema = r.choice(["public", "public", "tk"])
        self.k += 1
        db, new = "r01_a_%s_%d" % (self.pid, self.k), "r01_b_%s_%d" % (self.pid, self.k)
        src = self.source(schema)
        rec.sql("-- from a UTF8 database (extension in schema %s) to: %s" % (schema, target))
        self.conn.exec("CREATE DATABASE %s TEMPLATE %s STRATEGY file_copy" % (db, src))
        try:
            self.one(r, idx, rec, db, new, target, schema)
        finally:
            for d in (db, new):
                if self.conn.query("SELECT 1 FROM pg_database WHERE datname='%s'" % d):
                    self.conn.exec("ALTER DATABASE %s IS_TEMPLATE false; " % d)
                    self.conn.exec("DROP DATABASE %s WITH (FORCE)" % d)

    def x(self, rec, c, q):
        rec.sql(q)
        return c.query(q)

    def one(self, r, idx, rec, db, new, target, schema):
        c = self.to(db)
        path = schema + ", toolkit_experimental"
        c.exec("CREATE SCHEMA app")
        if schema != "public":
            rec.count("other_schema")
        c.exec("SET search_path=" + path)
        for q in ("CREATE TYPE app.mood AS ENUM ('sad','ok','happy')", "CREATE TYPE app.pair AS (n int, s text)", "CREATE TYPE app.\"od\"\"d 't\u00fdpe\" AS ENUM ('a', 'b', 'c', 'd')", "CREATE DOMAIN app.small AS int CHECK (VALUE < 1000)",
                  "CREATE COLLATION app.de (provider=icu, locale='de', deterministic=%s)" % r.choice(["true", "false"])):
            if target == "sql_ascii" and "COLLATION" in q or target in ("latin1", "sql_ascii") and "\u00fd" in q:
                continue
            else:
                self.x(rec, c, q)
        asks = []  # (label, query)
        names = sorted(cat.KINDS)
        r.shuffle(names)
        share = len(names) // 7 + 1
        g = idx // len(TARGETS)
        # every kind, to every target, in the course of the run
        names = sorted(cat.KINDS)
        names = [n for i, n in enumerate(names) if (i + g + idx) % 7 == 0] + r.sample(names, 3)
        seen = set()
        for n in names:
            if n in seen:
                continue
            seen.add(n)
            k, cols, rows = cat.instance(r, n, n=gen.size(r, 40))
            rec.count("agg:" + n)
            if target in ("latin1", "sql_ascii"):
                rows = [[x.encode("ascii", "replace").decode() for x in row] for row in rows]
            agg = k.agg(r, rows).replace("{o}", "")
            self.x(rec, c, "CREATE TABLE app.d_%s(%s)" % (n, ", ".join("%s %s" % x for x in cols)))
            self.x(rec, c, "INSERT INTO app.d_%s VALUES %s" % (n, ",".join("(%s)" % ",".join(x) for x in rows)))
            gens = [(e, ty) for kk, e, ty in GENERATED if kk == n]
            self.x(rec, c, "CREATE TABLE app.s_%s(id int, a %s%s)" % (n, k.ty, "".join(", g%d %s GENERATED ALWAYS AS (%s) STORED" % (j, ty, e) for j, (e, ty) in enumerate(gens))))
            self.x(rec, c, "INSERT INTO app.s_%s(id, a) SELECT 1, %s FROM app.d_%s UNION ALL SELECT 2, NULL" % (n, agg, n))
            if gens:
                rec.count("generated")
                asks.append(("generated " + n, "SELECT id, %s FROM app.s_%s ORDER BY id" % (", ".join("g%d::text" % j for j in range(len(gens))), n)))
            accs = []
            for a in k.accs(r, rows):
                for form in ([a.sql("a")] + ([a.arrow_sql("a")] if a.arrow else [])):
                    try:
                        c.query("SELECT %s FROM app.s_%s" % (form, n))
                    except PgError:
                        continue  # a question this summary refuses
                    accs.append(form)
            accs = r.sample(accs, min(len(accs), 14))
            if accs:
                self.x(rec, c, "CREATE VIEW app.v_%s AS SELECT id, %s FROM app.s_%s" % (n, ", ".join("%s AS x%d" % (e, j) for j, e in enumerate(accs)), n))
                asks.append(("view " + n, "SELECT * FROM app.v_%s ORDER BY id" % n))
                rec.count("views")
            if k.ty != "hyperloglog":
                asks.append(("text " + n, "SELECT id, a::text FROM app.s_%s ORDER BY id" % n))
            if not k.order and "state" not in n and r.random() < .5:
                # refreshed by the restore, from the restored rows
                self.x(rec, c, "CREATE MATERIALIZED VIEW app.m_%s AS SELECT (%s)::text AS x FROM app.d_%s" % (n, agg, n))
                if k.ty != "hyperloglog":
                    asks.append(("materialized " + n, "SELECT x FROM app.m_%s" % n))
                rec.count("matviews")
            if n in ("stats1d", "hll", "counter", "udd", "timevector") or (gens and r.random() < .5):
                e = {"stats1d": "stddev(a)", "hll": "distinct_count(a)", "counter": "a -> num_resets()", "udd": "approx_percentile(0.5, a)", "timevector": "a -> (sort() -> num_vals())"}.get(n)
                if e:
                    self.x(rec, c, "CREATE INDEX ON app.s_%s ((%s))" % (n, e))
                    rec.count("indexes")
                    asks.append(("index " + n, "SELECT id FROM app.s_%s WHERE (%s) IS NOT NULL ORDER BY (%s), id" % (n, e, e)))
        for kind, ty, mk, aggs in r.sample([u for u in USER if not (u[0] == 'collated' and target == 'sql_ascii' or u[0] == 'oddly named' and target in ('latin1', 'sql_ascii'))], 2):
            rec.count("user:" + kind)
            for j, (agg, sty, answers) in enumerate(aggs):
                t = "u_%s_%d" % (kind.replace(" ", "_"), j)
                one = mk.replace("%s", "i").replace("%%", "%")
                self.x(rec, c, "CREATE TABLE app.%s AS SELECT %s AS a FROM (SELECT i, i/2.0::float8 f, '2024-01-01'::timestamptz + i * interval '1 h' t, %s x FROM (SELECT (i * i) %% 11 AS i FROM generate_series(1, %d) i) q) q"
                       % (t, agg, one, r.randint(3, 30)))
                for j2, an in enumerate(answers):
                    self.x(rec, c, "CREATE VIEW app.v_%s_%d AS SELECT %s AS x FROM app.%s" % (t, j2, an.replace("rollup(ARRAY[{a}], x)", "rollup({a})").replace("{a}", "a"), t))
                    asks.append(("user " + kind, "SELECT x FROM app.v_%s_%d" % (t, j2)))
        for j, (d, call) in enumerate(r.sample(FUNCS, 3)):
            self.x(rec, c, "CREATE FUNCTION app." + d)
            asks.append(("function", "SELECT " + call))
            rec.count("functions")
        ps = r.sample(PIPES, 3)
        self.x(rec, c, "CREATE TABLE app.p(id int, %s)" % ", ".join("p%d unstabletimevectorpipeline DEFAULT (%s)" % (j, p) for j, p in enumerate(ps)))
        self.x(rec, c, "INSERT INTO app.p(id) VALUES (1)")
        rec.count("defaults")
        for j, p in enumerate(ps):
            asks.append(("pipeline", "SELECT (SELECT string_agg(z::text, ';') FROM unnest(timevector(t, v) -> p%d) z) FROM app.p, (SELECT '2024-01-01'::timestamptz + (i*i %% 7) * interval '3 h' t, (i*i %% 5)::float8 - 2 v FROM generate_series(1,6) i) q GROUP BY id, p%d::text, p%d ORDER BY id" % (j, j, j)
                         if False else "SELECT id, (SELECT string_agg(z::text, ';') FROM unnest((SELECT timevector(t, v) FROM (SELECT '2024-01-01'::timestamptz + (i*i %% 7) * interval '3 h' t, (i*i %% 5)::float8 - 2 v FROM generate_series(1,6) i) q) -> p%d) z) FROM app.p ORDER BY id" % j))
        before = []
        for label, q in asks:
            before.append(c.query(q))
        c.close()
        # the dump and the restore
        sv = self.ctx.server
        f = "%s/dump.%s.sql" % (sv.dir, new)
        opts = r.choice([[], [], ["--inserts"], ["--column-inserts", "--rows-per-insert=3"], ["--clean", "--if-exists"]])
        if "--inserts" in opts or "--column-inserts" in opts:
            rec.count("inserts")
        p = self.run([sv.bin + "pg_dump", "-d", db, "-f", f] + opts)
        if p.returncode:
            rec.fail("dump-fails", "pg_dump: " + p.stdout[-600:])
            return
        tgt = TARGETS[target]
        self.conn.exec("CREATE DATABASE %s TEMPLATE template0 STRATEGY file_copy %s" % (new, tgt))
        rec.count("target:" + target)
        t = self.to(new)
        t.exec("; ".join("CREATE TYPE public.junk%d AS ENUM ('x%d')" % (i, i) for i in range(r.randint(0, 9))) or "SELECT 1")
        t.exec("; ".join("CREATE TABLE public.junkt%d(i int)" % i for i in range(r.randint(0, 9))) or "SELECT 1")
        t.close()
        p = self.run([sv.bin + "psql", "-X", "-q", "-v", "ON_ERROR_STOP=0", "-d", new, "-f", f])
        os.unlink(f)
        errs = [l for l in p.stdout.splitlines() if "ERROR:" in l]
        rec.count("restores")
        rec.seen((tuple(sorted(seen)), target))
        if errs:
            for l in errs[:5]:
                rec.fail("restore-fails:" + self.sig(l), "restoring into %s (%s): %s" % (target, tgt, l[-500:]))
            return
        t = self.to(new)
        t.exec("SET search_path=" + path)
        for (label, q), b in zip(asks, before):
            try:
                a = self.x(rec, t, q)
            except PgError as e:
                rec.fail("unreadable:" + label, "%s in the restored database (%s): %s fails: %s" % (label, target, q, e))
                continue
            rec.count("answers_compared", sum(len(x) for x in b))
            if a != b:
                bad = [(x, y) for rb, ra in zip(b, a) for x, y in zip(rb, ra) if x != y][:2] or [(b, a)]
                rec.fail("changed:" + label, "%s in the restored database (%s): %s gave %s, now %s" % (label, target, q[:300], str(bad[0][0])[:400], str(bad[0][1])[:400]))
        t.close()
        if idx < 6:
            rec.sample = "%s -> %s: %d objects, %s" % (schema, target, len(asks), asks[0][1][:100])

    @staticmethod
    def sig(l):
        l = l.split("ERROR:")[1].strip()
        return " ".join(l.split()[:4])

    def run(self, cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=pgm._demote, env=self.env, cwd="/", timeout=120)
