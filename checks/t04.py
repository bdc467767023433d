"""Pipelines compose: however elements are grouped or fused, the result is that of applying them one by one."""
from run import SqlWorker
from pg import *
import gen, pipe
from pipe import Refused, X
from checks.t01 import parse_tv, rel, gen_rows
from checks.t02 import SETUP_DB as db_setup

ID = "T04"
QUICK, THOROUGH = 1000, 15000
RULE = ("seeded timevectors of 1..80 points through 1..5 elements (and lttb): one statement per element on stored intermediate results against left-to-right chains (fused by the planner), every random "
        "grouping, pipelines stored in a table, cast from their text or built in a subquery, and chains ending in unnest, materialize, sum, average, num_vals, stats_agg, counter_agg, hyperloglog and "
        "percentile_agg against the aggregate over the unnested result; errors included; distinct = distinct results")
ASSUMPTIONS = ["counter_agg is only compared on sorted, NULL-free results (it refuses or skips others)"]
MUST_OBSERVE = ["left_chain", "grouped", "stored_pipeline", "text_pipeline", "materialize", "unnest", "sum", "average", "num_vals", "stats_agg", "counter_agg", "hyperloglog", "percentile_agg", "errors_agree",
                "null_points", "nulls_filtered", "nested_end", "null_pipeline", "volatile_pipeline"]


class Worker(SqlWorker):
    def group(self, r, els):
        """a random parenthesisation of el1 -> .. -> eln as a pipeline"""
        if len(els) == 1:
            return els[0]
        k = r.randint(1, len(els) - 1)
        return "(%s -> %s)" % (self.group(r, els[:k]), self.group(r, els[k:]))

    def case(self, r, idx, rec):
        n = r.choice([1, 2, 3, 8, 9, r.randint(1, 30), r.randint(1, 80)])
        rows = gen_rows(r, rec, n, special=r.random() < .3)
        if r.random() < .6:
            rows.sort(key=lambda x: x[0])
        if r.random() < .3:
            rows = [(t, 1.5 if v is None else v) for t, v in rows]
        s = [(t, pipe.NAN if v is None else v, v is None) for t, v in rows]
        els = []
        nn = sum(p[2] for p in s)
        rec.count("null_points", nn)
        for i in range(r.randint(1, 5)):
            if nn and r.random() < .3:
                els.append(X + "filter($$ $value = $value $$)")
                f = lambda s: [p for p in s if p[1] == p[1]]
            elif r.random() < .1:
                els.append(X + "lttb(%d)" % r.randint(3, 20))
                continue
            else:
                _, q, f, _ = pipe.element(r, s, 0)
                els.append(q)
            try:
                s = f(s)
            except Refused:
                pass
            if not all(-4 * 10 ** 17 < p[0] < 9 * 10 ** 18 for p in s):
                return
        self.Q(rec, "DROP TABLE IF EXISTS t04; CREATE TEMP TABLE t04 AS SELECT timevector(t,v ORDER BY o) tv FROM %s" % rel(rows))
        # one element at a time, each result stored
        base = None
        for e in els:
            _, base = self.err(rec, "CREATE TEMP TABLE t04n AS SELECT tv -> %s tv FROM t04; DROP TABLE t04; ALTER TABLE t04n RENAME TO t04; " % e)
            if base:
                break
        want = None if base else self.Q(rec, "SELECT tv::text FROM t04")[0][0]
        self.Q(rec, "CREATE TEMP TABLE IF NOT EXISTS t04s(tv timevector_tstz_f64); TRUNCATE t04s; INSERT INTO t04s SELECT timevector(t,v ORDER BY o) FROM %s" % rel(rows))
        chain = " -> ".join(els)
        forms = [("left_chain", "tv -> " + chain)]
        k = r.randint(0, len(els) - 1)
        forms.append(("grouped", "tv -> %s%s" % ("".join(e + " -> " for e in els[:k]), self.group(r, els[k:]))))
        pl = self.group(r, els) if len(els) > 1 else r.choice([els[0] + "::" + X + "unstabletimevectorpipeline"])
        forms.append(("stored_pipeline", "tv -> (SELECT p FROM t04p)"))
        forms.append(("text_pipeline", "tv -> (SELECT p::text::%sunstabletimevectorpipeline FROM t04p)" % X))
        forms.append(("materialize", "tv -> %s -> %smaterialize()" % (chain, X)))
        forms.append(("materialize", "tv -> (%s -> %smaterialize())" % (self.group(r, els), X)))
        forms.append(("volatile_pipeline", "tv -> CASE WHEN random() < 2 THEN %s END" % pl))
        self.Q(rec, "DROP TABLE IF EXISTS t04p; CREATE TEMP TABLE t04p AS SELECT %s p" % pl)
        for name, q in r.sample(forms, 4):
            rec.count(name)
            got, e = self.err(rec, "SELECT (%s)::text FROM t04s" % q)
            self.agree(rec, name, q, n, base, want, e, None if e else got[0][0])
        rec.seen(want or str(base))
        if idx < 3:
            rec.sample = "%s on %d points: %s" % (chain, n, (want or str(base))[:200])
        if not base:
            if nn and not parse_tv(want)[1]:
                rec.count("nulls_filtered")
            self.terminal(r, rec, els, n, want)
        if r.random() < .05:
            # a NULL pipeline is a NULL result, wherever it stands
            rec.count("null_pipeline")
            np = "NULL::%sunstabletimevectorpipeline" % X
            q = r.choice(["tv -> %s -> %s" % (np, els[0]), "tv -> %s -> %s" % (els[0], np), "tv -> (%s -> %s)" % (els[0] + "::" + X + "unstabletimevectorpipeline", np), "NULL::timevector_tstz_f64 -> " + chain])
            got, e = self.err(rec, "SELECT (%s) IS NULL FROM t04s" % q)
            if e is None and got[0][0] != "t":
                rec.fail("compose:null", "%s is not NULL" % q)

    def agree(self, rec, name, q, n, base, want, e, got):
        if base or e:
            if not (base and e):
                rec.fail("compose:" + name, "%s on %d points: %s; one by one: %s" % (q, n, e or "accepted", base or "accepted"))
            elif base.msg.strip() != e.msg.strip():
                rec.fail("compose:" + name, "%s on %d points fails with %s; one by one with %s" % (q, n, e, base))
            else:
                rec.count("errors_agree")
        elif got != want:
            rec.fail("compose:" + name, "%s on %d points gives %s; one by one %s" % (q, n, got[:400], want[:400]))

    def terminal(self, r, rec, els, n, want):
        pts, nulls, _ = parse_tv(want)
        t = r.choice(["unnest", "sum", "average", "num_vals", "stats_agg", "stats_agg", "counter_agg", "hyperloglog", "percentile_agg"])
        rec.count(t)
        chain, grp = " -> ".join(els), self.group(r, els)
        size = r.choice([32, 64, 500])
        k = r.randint(1, max(1, len(els) - 1))
        if t == "unnest":
            f = "(SELECT string_agg((u.time, u.value)::text, ';' ORDER BY o) FROM (SELECT row_number() OVER () o, x.* FROM (SELECT (%s).*) x) u)"
            ref = f % "unnest(tv)"
            forms = [f % ("tv -> %s -> %sunnest()" % (chain, X)), f % ("tv -> (%s -> %sunnest())" % (grp, X)), f % ("tv -> %s -> unnest()" % chain)]
            if len(els) > 1:
                forms.append(f % ("tv -> (%s -> (%s -> %sunnest()))" % (self.group(r, els[:k]), self.group(r, els[k:]), X)))
        else:
            el = {"sum": "sum()", "average": "average()", "num_vals": "num_vals()", "hyperloglog": X + "hyperloglog(%d)" % size}.get(t, X + t + "()")
            # (cast::text) of the terminal applied to the stored result, and of the aggregate over its points
            direct = {"sum": "sum(stats_agg(value))", "average": "average(stats_agg(value))", "num_vals": "count(*)", "stats_agg": "stats_agg(value)", "counter_agg": "counter_agg(time, value)",
                      "hyperloglog": "hyperloglog(%d, value)" % size, "percentile_agg": "percentile_agg(value)"}[t]
            ref = "(tv -> %s)::text" % el
            fused = "%s -> %s" % (grp, el) if t in ("sum", "average", "num_vals") else "%sfinalize_with_%s(%s, %s)" % (X, t, grp, el)
            forms = ["(tv -> %s -> %s)::text" % (chain, el), "(tv -> (%s))::text" % fused]
            if len(els) > 1:
                # the end first joined with the last elements, then with the others
                rec.count("nested_end")
                a, b = self.group(r, els[:k]), self.group(r, els[k:])
                fused = "%s -> (%s -> %s)" % (a, b, el) if t in ("sum", "average", "num_vals") else "{0}finalize_with_{1}({2}, {0}finalize_with_{1}({3}, {4}))".format(X, t, a, b, el)
                forms += ["(tv -> (%s))::text" % fused] + ["(tv -> %s)::text" % fused] * (t in ("sum", "average", "num_vals"))
            if not nulls and (t != "counter_agg" or all(a[0] < b[0] for a, b in zip(pts, pts[1:]))) and pts:
                got, e = self.err(rec, "SELECT (%s)::text, (SELECT (%s)::text FROM unnest(tv)) FROM t04" % ("tv -> " + el, direct))
                if e:
                    # a failing accumulation (infinite sums, ..) fails both ways
                    _, e1 = self.err(rec, "SELECT (tv -> %s)::text FROM t04" % el)
                    _, e2 = self.err(rec, "SELECT (SELECT (%s)::text FROM unnest(tv)) FROM t04" % direct)
                    if (e1 is None) != (e2 is None):
                        rec.fail("compose:" + t, "%s of %d points: %s, but %s: %s" % (el, n, e1, direct, e2))
                elif got[0][0] != got[0][1]:
                    rec.fail("compose:" + t, "%s of %s... gives %s, but %s gives %s" % (el, pts[:3], got[0][0][:400], direct, got[0][1][:400]))
        a, ea = self.err(rec, "SELECT %s FROM t04" % ref)
        for q in forms:
            b, eb = self.err(rec, "SELECT %s FROM t04s" % q)
            self.agree(rec, t, q, n, ea, None if ea else a[0][0], eb, None if eb else b[0][0]) if ea or eb or a[0][0] != b[0][0] else None
