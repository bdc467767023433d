"""NULL rows carry no information: aggregates ignore them (or refuse them), no rows give NULL, NULL summaries are skipped by rollups,
NULL arguments of accessors give NULL."""
from run import SqlWorker
from pg import *
import gen, cat, parts

ID = "X06"
QUICK, THOROUGH = 6000, 120000
RULE = ("seeded inputs of every aggregate with NULLs inserted in any column at any place, evaluated plainly, over window frames, in forced partial plans and through rollup, each compared with the same input "
        "without the rows that hold a NULL; inputs that are empty or all NULL; NULL summaries; distinct = (aggregate, scenario, where the NULLs are)")
ASSUMPTIONS = ["heartbeat_agg, state_agg, compact_state_agg, lttb, gp_lttb and max_n/min_n (and the rollups of the last) refuse NULL rows with an error; timevector keeps a NULL value as a NULL point; candlestick_agg keeps "
               "the prices of a row whose volume is NULL; stats_agg over nothing but NULL rows is an empty summary; interpolated_* and the topn/into_values of untyped sketches refuse a NULL summary; duration_in of a NULL summary is zero"]
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["null_rows", "refused", "no_rows", "all_null", "frames", "parts", "partial_plan", "rollup_nulls", "rollup_none", "null_summary", "null_argument", "answers_compared"]

SCEN = ["plain", "plain", "plain", "frames", "parts", "rollup", "empty", "arg"]


class Worker(SqlWorker):
    partial_seen = None

    def case(self, r, idx, rec):
        names = sorted(cat.KINDS)
        k, cols, rows = cat.instance(r, names[idx % len(names)], n=gen.size(r, 30))
        rec.count("agg:" + k.name)
        s = r.choice(SCEN)
        agg = k.agg(r, rows)
        accs = k.accs(r, rows)
        getattr(self, s)(r, rec, k, cols, rows, agg, accs)

    def nullify(self, r, k, cols, rows):
        """rows with NULL rows among them"""
        out, w = [], []
        for row in rows:
            while r.random() < .3:
                n = list(r.choice(rows))
                which = [i for i in range(len(cols)) if r.random() < .5] or [r.randrange(len(cols))]
                if k.name in ("timevector", "candlestick") and which[-1] == len(cols) - 1 and len(which) == 1:
                    which = [0] + which  # a NULL value is a point of its own, a NULL volume leaves the prices
                for i in which:
                    n[i] = "NULL::" + cols[i][1]
                w.append((len(out), tuple(which)))
                out.append(n)
            out.append(row)
        if r.random() < .3:
            out.append(["NULL::" + c[1] for c in cols])
            w.append("end")
        return out, tuple(w)

    def vals(self, cols, rows):
        return "(VALUES %s) d(i, %s)" % (",".join("(%d,%s)" % (i, ",".join(x)) for i, x in enumerate(rows)), ", ".join(c[0] for c in cols))

    def answers(self, rec, k, accs, agg, src):
        got = []
        q = "SELECT (a IS NULL)%s FROM (SELECT %s a FROM %s) z" % ("".join(", " + x.sql("a") for x in accs), agg, src)
        return self.err(rec, q)

    def compare(self, rec, k, accs, a, b, what, sig, order=True):
        for j, (u, v) in enumerate(zip(a, b)):
            if j == 0:
                if u != v and k.name[:5] == "stats" and accs[0].name == "num_vals" and {str(a[1]), str(b[1])} <= {"None", "0"}:
                    return  # nothing but NULL rows: an empty summary
                if u != v:
                    rec.fail(sig + ":" + k.name, "%s: IS NULL = %s, without the NULL rows %s" % (what, u, v))
                    return
                continue
            rec.count("answers_compared")
            if not order and k.name != "tdigest" and accs[j - 1].srf and u and v:
                # values that are equally frequent come in any order
                u, v = (sorted(z.split(";")) for z in (u, v))
                if u == v or accs[j - 1].name == "topn":
                    continue
            if not cat.same(accs[j - 1].mode, u, v):
                rec.fail(sig + ":" + k.name, "%s: %s = %s, without the NULL rows %s" % (what, accs[j - 1].fn, u, v))
                return

    def base(self, r, rec, k, cols, rows, agg, accs, src=None):
        """answers that the plain input gives; those it refuses are left out"""
        keep = []
        want, e = self.answers(rec, k, accs, agg, src or self.vals(cols, rows))
        if not e:
            return accs, want[0]
        for x in accs:
            _, e = self.answers(rec, k, [x], agg, src or self.vals(cols, rows))
            if not e:
                keep.append(x)
        want, e = self.answers(rec, k, keep, agg, src or self.vals(cols, rows))
        return keep, (None if e else want[0])

    def plain(self, r, rec, k, cols, rows, agg, accs):
        nr, where = self.nullify(r, k, cols, rows)
        if not where:
            return
        rec.count("null_rows", len(where))
        agg = agg.replace("{o}", r.choice(["", " ORDER BY i"]))
        accs, want = self.base(r, rec, k, cols, rows, agg, accs)
        if want is None:
            return
        got, e = self.answers(rec, k, accs, agg, self.vals(cols, nr))
        rec.seen((k.name, "plain", where))
        if e:
            if k.refuses_null:
                rec.count("refused")
                self.alive(rec)
            else:
                rec.fail("null-row-error:" + k.name, "%s with NULL rows: %s" % (agg, e))
            return
        if k.refuses_null:
            rec.count("not_refused")
        self.compare(rec, k, accs, got[0], want, agg, "null-row")

    def alive(self, rec):
        if self.Q(rec, "SELECT 1")[0][0] != "1":
            rec.fail("session", "the session gives wrong answers")

    def frames(self, r, rec, k, cols, rows, agg, accs):
        """every growing frame with NULL rows in it"""
        if k.refuses_null or k.flush:
            return self.plain(r, rec, k, cols, rows, agg, accs)
        rows = rows[:12]
        nr, where = self.nullify(r, k, cols, rows)
        agg = agg.replace("{o}", "")
        accs = [x for x in accs if x.mode == "exact"] or accs[:1]
        x = accs[0] if k.name[:5] == "stats" else r.choice(accs)
        rec.count("frames")
        pre = r.choice(["UNBOUNDED", "UNBOUNDED", "2", "0"])
        q = "SELECT i, (a IS NULL), %s FROM (SELECT i, %s OVER (ORDER BY i ROWS %s PRECEDING) a FROM %s) z ORDER BY i" % (x.sql("a"), agg, pre, self.vals(cols, nr))
        got, e = self.err(rec, q)
        rec.seen((k.name, "frames", where, pre))
        isnull = [any(v.startswith("NULL::") for v in row) for row in nr]
        for i in ([len(nr) - 1] + [r.randrange(len(nr)) for _ in range(2)]):
            lo = 0 if pre == "UNBOUNDED" else max(0, i - int(pre))
            sub = [row for row, z in list(zip(nr, isnull))[lo:i + 1] if not z]
            src = self.vals(cols, sub) if sub else "(SELECT * FROM %s WHERE false) d" % self.vals(cols, rows)
            want, e2 = self.answers(rec, k, [x], agg, src)
            if e2 or e:
                # each frame must then be refused by itself
                if e and not e2:
                    continue
                if e2 and not e:
                    rec.fail("null-frame-error:" + k.name, "%s over %s preceding at row %d is refused only without the NULL rows: %s" % (agg, pre, i, e2))
                    return
                continue
            self.compare(rec, k, [x], got[i][1:], want[0], "%s OVER ROWS %s PRECEDING at row %d" % (agg, pre, i), "null-frame")
        if e:
            last, e2 = self.answers(rec, k, [x], agg, self.vals(cols, [a for a, z in zip(nr, isnull) if not z]) if not all(isnull) else "(SELECT * FROM %s WHERE false) d" % self.vals(cols, rows))
            rec.count("frames_refused")

    def parts(self, r, rec, k, cols, rows, agg, accs):
        """partial states that saw NULL rows, or nothing but them"""
        if not k.partial or k.refuses_null or k.overlap:
            return self.plain(r, rec, k, cols, rows, agg, accs)
        if getattr(self, "pt", None) is None:
            self.pt = {}
        key = tuple(cols)
        if key not in self.pt:
            self.pt[key] = parts.Parts(self, "x06_%d" % len(self.pt), "i int, " + ", ".join("%s %s" % c for c in cols))
        p = self.pt[key]
        nr, where = self.nullify(r, k, cols, rows)
        if r.random() < .5:
            # a contiguous run of nothing but NULL rows
            nr += [["NULL::" + c[1] for c in cols] for _ in range(20)]
        agg = agg.replace("{o}", "")
        accs, want = self.base(r, rec, k, cols, rows, agg, accs)
        if want is None:
            return
        n = len(nr)
        cuts = sorted(r.randint(0, n) for _ in range(3))
        p.load(rec, [(sum(i >= c for c in cuts), "%d,%s" % (i, ",".join(x))) for i, x in enumerate(nr)])
        rec.count("parts")
        rec.seen((k.name, "parts", where))
        got, e = self.answers(rec, k, accs, agg, p.name)
        if not e and self.partial_seen is not True:
            self.partial_seen = p.is_partial(rec, "SELECT %s FROM %s" % (agg, p.name))
        rec.count("partial_plan" if self.partial_seen else "no_partial_plan")
        if e:
            rec.fail("null-part-error:" + k.name, "%s in partial plans with NULL rows: %s" % (agg, e))
            return
        self.compare(rec, k, accs, got[0], want, agg + " in partial plans", "null-part", not k.order)

    def rollup(self, r, rec, k, cols, rows, agg, accs):
        """NULL summaries among the summaries that are rolled up"""
        if not k.roll:
            return self.arg(r, rec, k, cols, rows, agg, accs)
        agg = agg.replace("{o}", "")
        n = len(rows)
        cuts = sorted(r.randint(0, n) for _ in range(r.choice([0, 1, 2])))
        pieces = [rows[a:b] for a, b in zip([0] + cuts, cuts + [n]) if a < b]
        if k.pieces == "none":
            pieces = [rows]
        sums = ["(SELECT %s FROM %s)" % (agg, self.vals(cols, x)) for x in pieces]
        roll = k.roll.replace("{a}", "a")
        accs, want = self.base(r, rec, k, cols, rows, roll, accs, "(VALUES %s) q(a)" % ",".join("(%s)" % s for s in sums))
        if want is None:
            return
        withn = list(sums)
        for _ in range(r.randint(1, 4)):
            withn.insert(r.randint(0, len(withn)), "NULL::" + k.ty)
        rec.count("rollup_nulls")
        rec.seen((k.name, "rollup", len(pieces), tuple(x.startswith("NULL") for x in withn)))
        got, e = self.answers(rec, k, accs, roll, "(VALUES %s) q(a)" % ",".join("(%s)" % s for s in withn))
        if e and k.name[:5] in ("max_n", "min_n") and "must not be null" in e.msg:
            rec.count("rollup_refused")
            self.alive(rec)
            return
        if e:
            rec.fail("null-summary-error:" + k.name, "rollup over %s: %s" % ([x[:4] == "NULL" for x in withn], e))
            return
        self.compare(rec, k, accs, got[0], want, "rollup with NULL summaries", "null-summary")
        for src in ("(VALUES (NULL::%s), (NULL)) q(a)" % k.ty, "(SELECT NULL::%s a WHERE false) q" % k.ty):
            rec.count("rollup_none")
            got, e = self.err(rec, "SELECT (%s) IS NULL FROM %s" % (roll, src))
            if e or got[0][0] != "t":
                rec.fail("rollup-none:" + k.name, "%s over %s: %s" % (roll, src, e or "not NULL"))

    def empty(self, r, rec, k, cols, rows, agg, accs):
        agg = agg.replace("{o}", r.choice(["", " ORDER BY i"]))
        rec.count("no_rows")
        rec.seen((k.name, "empty", agg))
        got, e = self.err(rec, "SELECT (%s) IS NULL FROM %s WHERE false" % (agg, self.vals(cols, rows)))
        if e or got[0][0] != "t":
            rec.fail("no-rows:" + k.name, "%s over no rows: %s" % (agg, e or "not NULL"))
        got, e = self.err(rec, "SELECT count(*), bool_and(a IS NULL) FROM (SELECT i, %s a FROM %s WHERE false GROUP BY i) z" % (agg, self.vals(cols, rows)))
        if e or got[0][0] != "0":
            rec.fail("no-groups:" + k.name, "%s: %s" % (agg, e or got))
        allnull = self.vals(cols, [["NULL::" + c[1] for c in cols]] * r.choice([1, 1, 2, 50]))
        got, e = self.err(rec, "SELECT (%s) IS NULL FROM %s" % (agg, allnull))
        rec.count("all_null")
        if e:
            if k.refuses_null:
                rec.count("refused")
                self.alive(rec)
            else:
                rec.fail("all-null-error:" + k.name, "%s over NULL rows: %s" % (agg, e))
        elif k.name[:5] == "stats":
            got, e = self.err(rec, "SELECT num_vals(%s) FROM %s" % (agg, allnull))
            if e or got[0][0] not in ("0", None):
                rec.fail("all-null:" + k.name, "%s over NULL rows: num_vals %s" % (agg, e or got[0][0]))
        elif got[0][0] != "t":
            rec.fail("all-null:" + k.name, "%s over NULL rows is not NULL" % agg)

    def arg(self, r, rec, k, cols, rows, agg, accs):
        """the answers of a NULL summary are NULL (or no rows)"""
        rec.count("null_summary")
        rec.seen((k.name, "arg", tuple(x.fn for x in accs)))
        for x in accs:
            for e_, form in ((x.fn, "function"), (x.arrow, "arrow")):
                if not e_ or e_.startswith("(SELECT"):
                    continue
                e_ = e_.replace("{a}", "NULL::" + k.ty)
                got, e = self.err(rec, "SELECT %s" % ("count(*) FROM (SELECT %s) z" % e_ if x.srf else "(%s) IS NULL" % e_))
                if e and ("must not be null" in e.msg or "must contain some data" in e.msg) and ("interpolate" in e_ or "trim_to(" in e_ or x.name in ("topn", "into_values") and k.name[:3] == "raw"):
                    rec.count("accessor_refused")
                    self.alive(rec)
                    continue
                if not e and x.name in ("duration_in", "toolkit_experimental.duration_in") and got[0][0] == "f":
                    if self.Q(rec, "SELECT (%s)::text" % e_)[0][0] != "00:00:00":
                        rec.fail("null-argument:" + k.name, "%s is not zero" % e_)
                    continue
                if e or got[0][0] != ("0" if x.srf else "t"):
                    rec.fail("null-argument:" + k.name, "%s (%s form): %s" % (e_, form, e or ("%s rows" % got[0][0] if x.srf else "not NULL")))
        # NULL in each argument of the answers in turn
        rec.count("null_argument")
