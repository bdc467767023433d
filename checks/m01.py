"""Memory safety: the extension, built with AddressSanitizer, inside PostgreSQL, under ordinary and hostile statements."""
from pg import *
import pg, cat, gen, re, time, os
from parts import Parts
from checks import x05

ID = "M01"
QUICK, THOROUGH = 5000, 200000
QUICK_SECS = 60
ASAN = True
RULE = ("the extension compiled with AddressSanitizer runs inside PostgreSQL: every aggregate over seeded inputs (some with results of more than 8 kB, which PostgreSQL allocates one by one so that the sanitizer sees their "
        "bounds), evaluated plainly, over window frames, as forced partial aggregates, rolled up, written and read back, with every accessor called; and the type-directed hostile statements and mutated text forms of X05; "
        "distinct = distinct (aggregate or function, way, outcome)")
ASSUMPTIONS = ["PostgreSQL itself and small chunks inside its memory contexts are not instrumented"]
WAYS = ["plain", "window", "partial", "rollup", "text", "big", "cursor", "toasted"]
MUST_OBSERVE = ["agg:" + k for k in cat.KINDS] + ["way:" + w for w in WAYS] + ["hostile_call", "hostile_text", "mutation_accepted", "returned", "refused", "instrumented"]
TIMEOUT, STMT_TIMEOUT = 60.0, 20


class Worker(x05.Worker):
    TIMEOUT = TIMEOUT
    STMT_TIMEOUT = STMT_TIMEOUT

    def __init__(self, ctx):
        self.P = {}
        x05.Worker.__init__(self, ctx)

    def died(self, rec, what, q, pid):
        rep = None
        for _ in range(150):
            rep = self.ctx.server.asan_report(pid)
            if rep and ("ABORTING" in rep or "SUMMARY" in rep):
                break
            time.sleep(.1)
        if rep:
            kind = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", rep)
            kind = kind[1] if kind else "report"
            if kind in ("hard", "out-of-memory", "allocation-size-too-big", "requested"):
                rec.count("out_of_memory")
            else:
                at = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", rep) if "timescaledb_toolkit" in f or "::" in f][:1]
                rec.fail("asan:%s:%s" % (kind, at[0] if at else what), "%s: %s\n%s" % (what, q[:1200], rep[:2500]))
        else:
            m = re.search(r"server process \(PID %d\) (was terminated by signal \d+|exited with exit code \d+)" % pid, self.ctx.server.log())
            if m:
                rec.fail("crash:" + what, "%s: the backend %s: %s" % (what, m[1], q[:1500]))
            else:
                rec.count("disturbed")
        self.back()

    def case(self, r, idx, rec):
        if idx == 0:
            # the sanitizer is there and sees the extension
            maps = self.run(rec, "maps", "SELECT count(*) FROM pg_ls_dir('.') d, (SELECT average(stats_agg(1.0::float8))) z")
            with open(self.ctx.server.bin.replace("/bin/", "/lib/") + "timescaledb_toolkit.so", "rb") as f:
                if b"__asan_report_load8" in f.read() and maps[0] == "ok":
                    rec.count("instrumented")
        w = idx % 4
        if w == 0:
            rec.count("hostile_call")
            self.do_call(r, idx // 4, rec)
        elif w == 1:
            rec.count("hostile_text")
            self.do_text(r, idx // 4 * 3, rec)
        else:
            self.do_cat(r, idx // 4 * 2 + w - 2, rec)
        if idx % 25 == 0:
            self.canary(rec)

    LONG = ["max_n_by(f, v, {n})", "min_n_by(i, v, {n})", "max_n_by(t, v, {n})", "mcv_agg({n}, v)", "mcv_agg({n}, 1.5, v)", "raw_mcv_agg({n}, v)", "toolkit_experimental.freq_agg(0.2, v)", "toolkit_experimental.raw_freq_agg(0.1, v)", "hyperloglog(64, v)", "approx_count_distinct(v)",
            "state_agg(t, v)", "toolkit_experimental.compact_state_agg(t, v)"]

    def do_long(self, r, rec):
        """values kept out of line, compressed, or with short headers, in tables and in groups"""
        T = r.choice(["EXTERNAL", "EXTENDED", "MAIN", "PLAIN"])
        top = 1500 if T in ("MAIN", "PLAIN") else r.choice([200, 3000, 9000, 40000])
        n = r.randint(1, 12)
        a = r.choice(self.LONG).replace("{n}", str(r.randint(1, 6)))
        out = "into_values(a, NULL::text)" if "n_by" in a or "raw_" in a else "distinct_count(a)" if "hyper" in a or "approx" in a else "%sinto_values(a)" % ("toolkit_experimental." if "compact" in a else "")
        made = ("DROP TABLE IF EXISTS m01_long; CREATE TEMP TABLE m01_long(i int, f float8, t timestamptz, v text); ALTER TABLE m01_long ALTER v SET STORAGE %s; INSERT INTO m01_long SELECT x, x * 0.7 %% 3, "
                "'2020-01-01'::timestamptz + x * interval '1 minute', %s FROM generate_series(1, %d) x" % (
                    T, r.choice(["repeat(chr(97 + x %% 5), %d + x %% 4)" % top, "(SELECT string_agg(md5((x %% 5 + y)::text), '') FROM generate_series(1, %d) y)" % (top // 32 + 1)]).replace("%%", "%"), n))
        self.run(rec, "long table", made)
        src = r.choice(["m01_long", "(SELECT i, f, t, v || '' v FROM m01_long ORDER BY v) q", "(SELECT i, f, t, upper(v) v FROM m01_long) q"])
        self.run(rec, "toasted " + a, "WITH w AS MATERIALIZED (SELECT %s a FROM %s) SELECT a::text, (SELECT count(z::text) FROM (SELECT %s z) y) FROM w" % (a, src, out))
        self.run(rec, "toasted over " + a, "WITH w AS MATERIALIZED (SELECT %s OVER (ORDER BY i ROWS 2 PRECEDING) a FROM %s) SELECT a::text, (SELECT count(z::text) FROM (SELECT %s z) y) FROM w" % (a, src, out))

    def do_cat(self, r, i, rec):
        names = sorted(cat.KINDS)
        name = names[i % len(names)]
        way = WAYS[i // len(names) % (len(WAYS) - 1)]
        if i % 13 == 5:
            rec.count("way:toasted")
            self.do_long(r, rec)
        rec.count("agg:" + name)
        rec.count("way:" + way)
        k, cols, rows = cat.instance(r, name, n=r.choice([400, 1500]) if way == "big" else gen.size(r, 40))
        agg = k.agg(r, rows).replace("{o}", "")
        accs = k.accs(r, rows)
        src = "(VALUES %s) d(rn, %s)" % (",".join("(%d,%s)" % (j, ",".join(x)) for j, x in enumerate(rows)), ", ".join(c[0] for c in cols))
        sel = ", ".join(x.sql("a") for x in accs)
        what = "%s %s" % (way, name)
        if way in ("plain", "big"):
            self.run(rec, what, "WITH w AS MATERIALIZED (SELECT %s a FROM %s) SELECT a::text, %s FROM w" % (agg, src, sel))
        elif way == "window":
            fr = r.choice(["ROWS 3 PRECEDING", "ROWS BETWEEN 2 PRECEDING AND 2 FOLLOWING", "ROWS UNBOUNDED PRECEDING", "ROWS BETWEEN 3 PRECEDING AND 1 PRECEDING"])
            self.run(rec, what, "WITH w AS MATERIALIZED (SELECT %s OVER (ORDER BY rn %s) a FROM %s) SELECT a::text, %s FROM w" % (agg, fr, src, sel))
        elif way == "partial":
            key = ",".join(c[1] for c in cols)
            if key not in self.P:
                self.P[key] = Parts(self, "mp_%d" % len(self.P), "rn int, " + ", ".join("%s %s" % c for c in cols))
            P = self.P[key]
            P.load(rec, [(r.randrange(4), "%d,%s" % (j, ",".join(x))) for j, x in enumerate(rows)])
            self.run(rec, what, "WITH w AS MATERIALIZED (SELECT %s a FROM %s) SELECT a::text, %s FROM w" % (agg, P.name, sel))
        elif way == "rollup" and k.roll and k.pieces != "none":
            m = r.randint(1, 5)
            n = len(rows)
            self.run(rec, what, "WITH w AS MATERIALIZED (SELECT %s a FROM (SELECT rn * %d / %d g, %s a0 FROM %s GROUP BY 1 ORDER BY 1) q) SELECT a::text, %s FROM w" % (
                k.roll.replace("{a}", "a0"), m, n, agg, src, sel))
        elif way == "cursor":
            # results that outlive the statement's memory
            self.run(rec, what, "BEGIN; DECLARE c CURSOR WITH HOLD FOR WITH w AS MATERIALIZED (SELECT rn %% 3 g, %s a FROM %s GROUP BY 1) SELECT a FROM w; FETCH 1 FROM c; COMMIT; FETCH ALL FROM c" % (agg, src))
            self.run(rec, what, "ROLLBACK; CLOSE ALL")
        else:
            st, x = self.run(rec, what, "WITH w AS MATERIALIZED (SELECT (%s)::text a FROM %s), v AS MATERIALIZED (SELECT a::%s a FROM w) SELECT a::text, %s FROM v" % (agg, src, k.ty, sel))
