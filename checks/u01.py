"""An update of the extension from an earlier version gives what a fresh install gives, and keeps the user's data."""
import re
from run import SqlWorker
from pg import *
import build, upgrade, pg as pgm

ID = "U01"
N = len(upgrade.SNAP["upgradeable_from"])
QUICK, THOROUGH = 4 * N, 40 * N
QUICK_SECS = 90
RULE = ("every version the control file names as updatable from, simulated by the current install script less what was stabilised later, with randomly perturbed function "
        "attributes, bodies and aggregate definitions, in public or another schema, installed by a superuser or a database owner, with tables, indexes and views over the stable types "
        "of that version; ALTER EXTENSION UPDATE through the script that tools/post-install generated, in a new session or the one that used the old library; the whole catalog of "
        "the extension compared with a fresh install, the data and the views with what they showed before; distinct = (version, variation)")
ASSUMPTIONS = ["the earlier versions are simulated from the current tree: their sources are not available offline", "PostgreSQL 16"]
MUST_OBSERVE = ["updates", "objects_compared", "old_objects_removed", "attributes_perturbed", "aggregates_perturbed", "other_schema", "db_owner", "same_session", "rows_kept",
                "views_kept", "experimental_dependents_dropped", "new_stable_objects", "paths"]

MEMBERS = """WITH m AS MATERIALIZED (SELECT d.classid, d.objid FROM pg_depend d JOIN pg_extension e ON d.refobjid=e.oid AND d.refclassid='pg_extension'::regclass
             WHERE e.extname='timescaledb_toolkit' AND d.deptype='e')
"""
CATALOG = [
    ("object", "SELECT pg_describe_object(classid,objid,0), '' FROM m"),
    ("routine", """SELECT 'routine '||p.oid::regprocedure::text, concat_ws('|', p.prokind, p.prorettype::regtype, p.proretset, p.provolatile, p.proisstrict, p.proparallel, p.prosecdef,
        p.proleakproof, p.procost, p.prorows, p.prosupport::regproc, l.lanname, coalesce(p.probin,'-'), p.prosrc, coalesce(p.proconfig::text,'-'), pg_get_function_arguments(p.oid),
        p.provariadic::regtype, pg_get_userbyid(p.proowner), coalesce(p.proacl::text,'-'), coalesce(obj_description(p.oid,'pg_proc'),'-'))
        FROM m JOIN pg_proc p ON m.classid='pg_proc'::regclass AND m.objid=p.oid JOIN pg_language l ON l.oid=p.prolang"""),
    ("aggregate", """SELECT 'aggregate '||a.aggfnoid::regprocedure::text, concat_ws('|', aggkind, aggnumdirectargs, aggtransfn, aggfinalfn, aggcombinefn, aggserialfn, aggdeserialfn,
        aggmtransfn, aggminvtransfn, aggmfinalfn, aggfinalextra, aggmfinalextra, aggfinalmodify, aggmfinalmodify, aggsortop, aggtranstype::regtype, aggtransspace,
        aggmtranstype::regtype, aggmtransspace, coalesce(agginitval,'-'), coalesce(aggminitval,'-'))
        FROM m JOIN pg_aggregate a ON m.classid='pg_proc'::regclass AND m.objid=a.aggfnoid"""),
    ("type", """SELECT 'type '||t.oid::regtype::text, concat_ws('|', n.nspname, t.typlen, t.typbyval, t.typtype, t.typcategory, t.typispreferred, t.typdelim, t.typinput, t.typoutput,
        t.typreceive, t.typsend, t.typmodin, t.typmodout, t.typanalyze, t.typalign, t.typstorage, t.typnotnull, t.typcollation, t.typisdefined, t.typarray::regtype)
        FROM m JOIN pg_type t ON m.classid='pg_type'::regclass AND m.objid=t.oid JOIN pg_namespace n ON n.oid=t.typnamespace"""),
    ("operator", """SELECT 'operator '||o.oid::regoperator::text, concat_ws('|', oprkind, oprcanmerge, oprcanhash, oprresult::regtype, oprcom::regoperator, oprnegate::regoperator,
        oprcode, oprrest, oprjoin) FROM m JOIN pg_operator o ON m.classid='pg_operator'::regclass AND m.objid=o.oid"""),
    ("cast", """SELECT 'cast '||c.castsource::regtype||'/'||c.casttarget::regtype, concat_ws('|', castfunc::regproc, castcontext, castmethod)
        FROM m JOIN pg_cast c ON m.classid='pg_cast'::regclass AND m.objid=c.oid"""),
    ("trigger", "SELECT 'event trigger '||evtname, evtenabled::text FROM pg_event_trigger"),
    ("version", "SELECT 'extension', extversion FROM pg_extension WHERE extname='timescaledb_toolkit'"),
    ("column", """SELECT 'column '||c.oid::regclass||'.'||a.attname, a.atttypid::regtype::text FROM m JOIN pg_class c ON m.classid='pg_class'::regclass AND m.objid=c.oid
        JOIN pg_attribute a ON a.attrelid=c.oid"""),
    ("schema", "SELECT 'schema '||nspname, '' FROM pg_namespace WHERE nspname IN ('toolkit_experimental')"),
    ("stray", """SELECT 'stray '||p.oid::regprocedure::text, probin FROM pg_proc p WHERE probin LIKE '%timescaledb_toolkit%' AND NOT EXISTS
        (SELECT FROM m WHERE m.classid='pg_proc'::regclass AND m.objid=p.oid)"""),
]

# version at which it may be used, column type, aggregate over (ts, v, i), an expression over column "a"
SUBJECTS = [
    ("prehistory", "statssummary1d", "stats_agg(v)", "average({a})||'/'||stddev({a})"),
    ("prehistory", "statssummary2d", "stats_agg(v, i::float8)", "slope({a})||'/'||corr({a})"),
    ("prehistory", "uddsketch", "uddsketch(100, 0.01, v)", "approx_percentile(0.4,{a})||'/'||num_vals({a})"),
    ("prehistory", "tdigest", "tdigest(50, v)", "approx_percentile(0.4,{a})||'/'||min_val({a})"),
    ("prehistory", "hyperloglog", "hyperloglog(64, i)", "distinct_count({a})::text"),
    ("prehistory", "countersummary", "counter_agg(ts, v)", "delta({a})||'/'||num_resets({a})"),
    ("prehistory", "timeweightsummary", "time_weight('LOCF', ts, v)", "average({a})::text"),
    ("1.9.0", "timevector_tstz_f64", "timevector(ts, v)", "(SELECT string_agg(t::text,',') FROM unnest({a}) t)"),
    ("1.9.0", "countersummary", "counter_agg(ts, v)", "({a}->delta())||'/'||({a}->num_resets())"),
    ("1.9.0", "statssummary1d", "stats_agg(v)", "({a}->average())||'/'||({a}->sum())"),
    ("1.11.0", "countersummary", "counter_agg(ts, v)", "first_val({a})||'/'||({a}->last_val())"),
    ("1.14.0", "candlestick", "candlestick_agg(ts, v, i::float8)", "high({a})||'/'||({a}->close())"),
    ("1.15.0", "stateagg", "state_agg(ts, (i % 3)::text)", "duration_in({a},'1')::text"),
    ("1.15.0", "heartbeatagg", "heartbeat_agg(ts, '2024-01-01', '3 days', '1 min')", "uptime({a})||'/'||({a}->downtime())"),
    ("1.16.0", "spacesavingbigintaggregate", "mcv_agg(3, i)", "(SELECT string_agg(x::text,',' ORDER BY x) FROM topn({a}, 2) x)"),
    ("1.16.0", "maxfloats", "max_n(v, 3)", "into_array({a})::text"),
    ("1.16.0", "minbytimes", "min_n_by(ts, v, 3)", "(SELECT string_agg(x.value::text, ',' ORDER BY x.value) FROM into_values({a}, NULL::float8) x)"),
    ("1.25.0", "gaugesummary", "gauge_agg(ts, v)", "delta({a})||'/'||({a}->slope())"),
]
FRESH, VERSION = {}, []


def members(conn):
    out = {}
    for name, q in CATALOG:
        for k, v in conn.query(MEMBERS + q):
            out[k] = v
    return out


def prepare(tier):
    VERSION.append(upgrade.ensure())


def make_server(conf):
    return pgm.Server(conf, extension=False, root=upgrade.ROOT)


PGCONF = "max_locks_per_transaction = 512\n"


def fresh(w, schema):
    """the catalog of a fresh install in this schema"""
    if schema not in FRESH:
        db = w.newdb()
        c = w.to(db)
        w.create(c, schema, None)
        FRESH[schema] = members(c)
        c.close()
        w.conn.exec("DROP DATABASE " + db)
    return FRESH[schema]


class Worker(SqlWorker):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.k = 0
        self.version = VERSION[0]
        self.pid = self.conn.val("SELECT pg_backend_pid()")

    def newdb(self, owner=None):
        self.k += 1
        db = "u_%s_%d" % (self.pid, self.k)
        self.conn.exec("CREATE DATABASE %s TEMPLATE template0 STRATEGY file_copy %s" % (db, "OWNER " + owner if owner else ""))
        return db

    def to(self, db, user="postgres"):
        c = self.ctx.server.connect(db=db, user=user, timeout=120.0)
        c.exec("SET statement_timeout='100s'; SET client_min_messages=error")
        return c

    def create(self, c, schema, version):
        if schema != "public":
            c.exec("CREATE SCHEMA %s" % schema)
        c.exec("SET search_path=%s" % schema)
        c.exec("CREATE EXTENSION timescaledb_toolkit %s %s" % ("WITH SCHEMA " + schema if schema != "public" else "", "VERSION '%s'" % version if version else ""))

    def q(self, rec, c, q):
        rec.sql(q)
        return c.query(q)

    def case(self, r, idx, rec):
        if upgrade.FAILED:
            rec.fail("post-install-fails", "tools/post-install cannot lay out the release: %s" % upgrade.FAILED[0])
            return
        frm = upgrade.SNAP["upgradeable_from"][idx % N]
        schema = r.choice(["public", "public", "tk", '"Odd Schema"'])
        owner = r.random() < .4
        same = r.random() < .5
        exp = fresh(self, schema)
        rec.sql("-- from %s, schema %s, %s" % (frm, schema, "database owner" if owner else "superuser"))
        role = None
        if owner:
            rec.count("db_owner")
            role = "own_%s_%d" % (self.pid, self.k)
            self.conn.exec("CREATE ROLE %s LOGIN" % role)
        db = self.newdb(role)
        su = self.to(db)
        try:
            self.one(r, rec, db, su, role or "postgres", frm, schema, same, exp)
        finally:
            su.close()
            self.conn.exec("DROP DATABASE %s WITH (FORCE)" % db)
            if role:
                self.conn.exec("DROP ROLE " + role)

    def one(self, r, rec, db, su, user, frm, schema, same, exp):
        if schema != "public":
            rec.count("other_schema")
            su.exec("CREATE SCHEMA %s AUTHORIZATION %s" % (schema, user))
        elif user != "postgres":
            su.exec("GRANT CREATE ON SCHEMA public TO " + user)
        c = self.to(db, user)
        c.exec("SET search_path=%s" % schema)
        c.exec("CREATE SCHEMA app; SET app.x='1'")
        paths = c.query("SELECT path FROM pg_extension_update_paths('timescaledb_toolkit') WHERE source='%s' AND target='%s'" % (frm, self.version))
        if not paths or paths[0][0] is None:
            rec.fail("no-path", "there is no update from %s to %s" % (frm, self.version))
            return
        rec.count("paths")
        c.exec("CREATE EXTENSION timescaledb_toolkit %s VERSION '%s'" % ("WITH SCHEMA " + schema if schema != "public" else "", frm))
        su.exec("SET search_path=%s" % schema)
        old = members(su)
        rec.count("new_stable_objects", len([o for o in exp if o.split(" ")[0] in ("function", "operator", "type") and o not in old]))
        # every stable object of the release exists, new or old
        for o in upgrade.SNAP["objects"]:
            if o not in exp and schema == "public":
                rec.fail("stable-object-missing", "%s is not in a fresh install any more" % o)
                return
        # old definitions that differ
        funs = [k[len("routine "):] for k, v in sorted(old.items()) if k.startswith("routine ") and v.startswith("f|") and "toolkit_experimental" not in k]
        aggs = [k[len("routine "):] for k, v in sorted(old.items()) if k.startswith("routine ") and v.startswith("a|") and "toolkit_experimental" not in k]
        stmts = []
        for f in r.sample(funs, min(len(funs), r.choice([0, 5, 40]))):
            sig = f
            a = r.choice(["VOLATILE", "STABLE", "PARALLEL UNSAFE", "PARALLEL RESTRICTED", "COST 77", "SECURITY DEFINER", "SET work_mem='8MB'", "LEAKPROOF"])
            stmts.append("ALTER FUNCTION %s %s" % (sig, a))
        rec.count("attributes_perturbed", len(stmts))
        for a in r.sample(aggs, min(len(aggs), r.choice([0, 2, 8]))):
            which = r.randint(0, 3)
            if which == 0:
                stmts.append("UPDATE pg_proc SET proparallel='u' WHERE oid='%s'::regprocedure" % a.replace("'", "''"))
            elif which == 1:
                stmts.append("UPDATE pg_aggregate SET aggcombinefn=0, aggserialfn=0, aggdeserialfn=0 WHERE aggfnoid='%s'::regprocedure" % a.replace("'", "''"))
            elif which == 2:
                stmts.append("UPDATE pg_aggregate SET aggtransspace=999 WHERE aggfnoid='%s'::regprocedure" % a.replace("'", "''"))
            else:
                stmts.append("UPDATE pg_aggregate SET aggfinalmodify='w' WHERE aggfnoid='%s'::regprocedure" % a.replace("'", "''"))
            rec.count("aggregates_perturbed")
        for s in stmts:
            self.q(rec, su, s)
        # the user's objects
        subj = [s for s in SUBJECTS if upgrade.vkey(s[0]) <= upgrade.vkey(frm)]
        subj = r.sample(subj, min(len(subj), r.randint(4, 10)))
        n = r.randint(3, 40)
        c.exec("CREATE TABLE app.src AS SELECT '2024-01-01'::timestamptz + make_interval(mins => 7*g) ts, (g*37 %% 11)::float8 v, (g*5 %% 7)::bigint i, g %% 3 grp FROM generate_series(1,%d) g" % n)
        qs = []
        for j, (_, ty, agg, ex) in enumerate(subj):
            c.exec("CREATE TABLE app.t%d (g int, a %s)" % (j, ty))
            c.exec("INSERT INTO app.t%d SELECT grp, %s FROM app.src GROUP BY grp" % (j, agg))
            c.exec("CREATE VIEW app.v%d AS SELECT g, %s AS x FROM app.t%d" % (j, ex.format(a="a"), j))
            c.exec("CREATE VIEW app.w%d AS SELECT grp, (%s)::text AS x FROM app.src GROUP BY grp" % (j, agg))
            qs += ["SELECT g, a::text FROM app.t%d ORDER BY g" % j, "SELECT g, x FROM app.v%d ORDER BY g" % j]
            if ty != "stateagg":  # (its text depends on the order in which a hash map hands out the states)
                qs.append("SELECT grp, x FROM app.w%d ORDER BY grp" % j)
        if r.random() < .5:
            c.exec("CREATE FUNCTION app.f(float8[]) RETURNS float8 LANGUAGE sql AS $$ SELECT average(stats_agg(x)) FROM unnest($1) x $$")
            qs.append("SELECT app.f(ARRAY[1,2,4.5])")
        exper = upgrade.vkey(frm) >= (1, 9, 0)
        if exper:
            c.exec("CREATE VIEW app.ve AS SELECT toolkit_experimental.to_text(timevector(ts,v), '{{TIMES}}') x FROM app.src")
        before = [c.query(q) for q in qs]
        u = c
        if not same:
            c.close()
            u = c = self.to(db, user)
            c.exec("SET search_path=%s" % schema)
        else:
            rec.count("same_session")
        rec.sql("ALTER EXTENSION timescaledb_toolkit UPDATE")
        try:
            u.exec("ALTER EXTENSION timescaledb_toolkit UPDATE" + ("" if r.random() < .5 else " TO '%s'" % self.version))
        except PgError as e:
            rec.fail("update-fails", "the update from %s fails: %s" % (frm, e))
            return
        rec.count("updates")
        rec.seen((frm, schema, user != "postgres", same, len(stmts)))
        su.exec("SET search_path=%s" % schema)
        got = members(su)
        rec.count("objects_compared", len(exp))
        rec.count("old_objects_removed", len([k for k in old if k not in got]))
        for k in sorted(set(exp) | set(got)):
            e, g = exp.get(k), got.get(k)
            if e != g:
                kind = k.split(" ")[0]
                what = "is missing" if g is None else "is left over" if e is None else "differs: %s, fresh install has %s" % (g, e)
                rec.fail("catalog-" + kind, "after the update from %s to %s, %s %s" % (frm, self.version, k, what))
                return
        c2 = self.to(db, user)
        c2.exec("SET search_path=%s" % schema)
        for cc in (c2, c):
            for q, b in zip(qs, before):
                try:
                    a = self.q(rec, cc, q)
                except PgError as e:
                    rec.fail("data-unreadable", "after the update from %s, %s fails: %s" % (frm, q, e))
                    return
                if a != b:
                    rec.fail("data-changed", "after the update from %s, %s gives %r, before it gave %r" % (frm, q, a[:4], b[:4]))
                    return
                rec.count("views_kept" if ".t" not in q else "rows_kept", len(b))
        if exper:
            left = c2.query("SELECT 1 FROM pg_views WHERE schemaname='app' AND viewname='ve'")
            if left:
                rec.fail("experimental-kept", "a view over an experimental function survived the update from %s" % frm)
                return
            rec.count("experimental_dependents_dropped")
        c2.close()
        c.close()
        rec.sample = {"from": frm, "to": self.version, "schema": schema, "perturbed": len(stmts), "objects": len(got), "tables": len(subj)}
