"""The documentation testers report exactly the examples that fail."""
import fcntl, os, re, shutil, subprocess, tempfile
import build, upgrade, pg as pgm
from run import SqlWorker

ID = "P01"
QUICK, THOROUGH = 120, 4000
QUICK_SECS = 60
RULE = ("seeded directories of Markdown files (headings, prose, lists, other code blocks, links between files, either line ending) of SQL examples that hold or fail in a known way, with every tag and combination of "
        "tags, run through sql-doctester and, every eighth case, through update-tester's create and validate steps against a private server; the reported places, kinds of error, exit status and "
        "the databases left behind compared with what was planted; distinct = distinct (tags, kinds of failure, report)")
ASSUMPTIONS = ["a stand-in for the timescaledb extension, which is not installed here, lets the startup script run", "an example is one statement, or statements of which only the last returns rows",
               "update-tester is given the extension as tools/post-install lays it out"]
MUST_OBSERVE = ["tool:sql-doctester", "tool:update-tester", "block:pass", "block:fail", "fail:value", "fail:extra_row", "fail:missing_row", "fail:extra_column", "fail:missing_column", "fail:sql_error", "fail:no_output",
                "fail:unexpected_output", "fail:precision", "pass:precision", "tag:ignore", "tag:ignore-output", "tag:non-transactional", "state:rolled_back", "state:kept", "state:other_file", "all_passed",
                "some_failed", "non_ascii", "crlf", "in_list", "symlink", "skipped_for_version", "create_step", "validate_step", "text_before_output", "precision_on_test", "dropped", "pointed_at"]
TOOLS = {}
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def prepare(tier):
    upgrade.ensure()
    build._sh("export CARGO_TARGET_DIR=%s; cargo build --offline -p sql-doctester -p update-tester" % build.TARGET, cwd=build.REPO)
    for t in ("sql-doctester", "update-tester"):
        TOOLS[t] = os.path.join(build.TARGET, "debug", t)
    e = upgrade.ROOT + "/usr/share/postgresql/16/extension/"
    for f, t in (("timescaledb.control", "comment = 'stand-in'\ndefault_version = '0'\n"), ("timescaledb--0.sql", STANDIN)):
        if not os.path.exists(e + f) or open(e + f).read() != t:
            with open(e + f + ".%d" % os.getpid(), "w") as h:
                h.write(t)
            os.replace(h.name, e + f)


# what examples use of the timescaledb extension, which is not installed here
STANDIN = """
CREATE FUNCTION time_bucket(i interval, t timestamptz) RETURNS timestamptz LANGUAGE sql IMMUTABLE PARALLEL SAFE AS $$ SELECT date_bin(i, t, '2000-01-03 00:00:00+00') $$;
CREATE FUNCTION create_hypertable(rel regclass, col name, chunk_time_interval interval DEFAULT NULL, migrate_data bool DEFAULT false) RETURNS text LANGUAGE sql AS $$ SELECT '' $$;
CREATE PROCEDURE refresh_continuous_aggregate(v text, a text, b text) LANGUAGE sql AS $$ SELECT 1 $$;
"""


def make_server(conf):
    return pgm.Server(conf, extension=False, root=upgrade.ROOT)


PGCONF = "max_connections = 200\nmax_locks_per_transaction = 256\n"


def db_setup(c, ctx):
    for i in range(16):
        c.exec("CREATE ROLE doc%d SUPERUSER LOGIN" % i)


def q(s):
    return "'" + s.replace("'", "''") + "'"


WORDS = ["a", "bc", "x1", "été", "日本語", "Ω", "it's", "longer words here", "0.10", "-", "NULL", "<b>", "*z*", "\\d", "`tick`", "&amp;", "#", "🎉🎉"]


class Block:
    """one example: lines of the SQL block, rows really returned, rows shown, whether it must be reported, the kind of its error"""


class Worker(SqlWorker):
    threads = 2

    def __init__(self, ctx):
        super().__init__(ctx)
        self.role = None
        self.version = open(build.PGROOT + "/installed").read()

    # ---- examples
    def cell(self, r):
        k = r.random()
        if k < .3:
            n = r.randint(-10**6, 10**6)
            return "%d" % n, "%d" % n
        if k < .45:
            x = r.random() * 100
            return "%r::float8" % x, "%r" % x
        if k < .5:
            return "NULL::text", ""
        if k < .55:
            return "true", "t"
        w = r.choice(WORDS) + (r.choice(WORDS) if r.random() < .3 else "")
        return q(w) + "::text", w

    def example(self, r, rec, update):
        b = Block()
        nrow, ncol = r.choice([1, 1, 1, 2, 3, 7]), r.choice([1, 1, 2, 3, 4])
        cells = [[self.cell(r) for _ in range(ncol)] for _ in range(nrow)]
        # columns of one type
        for j in range(ncol):
            if len({c[j][0].split("::")[-1] if "::" in c[j][0] else type(c[j][0]) for c in cells}) > 1 or nrow > 1:
                for i in range(nrow):
                    w = r.choice(WORDS) + str(i)
                    cells[i][j] = (q(w), w)
        rows = [[c[1] for c in x] for x in cells]
        if nrow == 1:
            sql = "SELECT " + r.choice([", ", ",\n       "]).join(c[0] for c in cells[0])
        else:
            sql = "SELECT * FROM (VALUES " + r.choice([", ", ",\n  "]).join("(%s)" % ", ".join(c[0] for c in x) for x in cells) + ") v"
        b.tags, b.limits, b.out_limits = [], {}, {}
        b.at = None
        b.err = "Error:"
        shown = [list(x) for x in rows]
        k = r.choice(["ok"] * 7 + ["value", "extra_row", "missing_row", "extra_column", "missing_column", "sql_error", "no_output", "unexpected_output", "precision", "precision_ok", "precision_ok",
                                   "ignore-output", "ignore-output", "ignore", "empty", "toolkit", "ignored_error"])
        if k == "value":
            i, j = r.randrange(nrow), r.randrange(ncol)
            v = shown[i][j]
            ways = [v + r.choice(["x", "0", "é"]), v + " " + v, v[:-1].strip(), v[1:].strip(), v[:-1].strip() + "~", "", v.swapcase(), v.replace("0", "00", 1), r.choice(WORDS)]
            shown[i][j] = r.choice([w for w in ways if w.strip() != v])
        elif k == "extra_row":
            shown.insert(r.randrange(nrow + 1), list(r.choice(shown)))
        elif k == "missing_row":
            if nrow < 2:
                k = "ok"
            else:
                del shown[r.randrange(nrow)]
        elif k == "extra_column":
            for x in (shown if r.random() < .5 else [r.choice(shown)]):
                x.append("9")
        elif k == "missing_column":
            if ncol < 2:
                k = "ok"
            else:
                for x in (shown if r.random() < .5 else [r.choice(shown)]):
                    x.pop()
        elif k in ("sql_error", "ignored_error"):
            pre = r.choice(["", "-- %s\n" % r.choice(WORDS[3:6]), "SELECT %s;\n" % q("日本") if k == "ignored_error" else ""])
            bad, b.at = r.choice([("SELECT 1 / 0", None), ("SELEC 1", "SELEC"), ("SELECT %s, no_such_column" % q("é" * 9), "no_such_column"), ("SELECT * FROM no_such_table", "no_such_table"),
                                  ("SELECT '日本語日本語'::int", "'日本語"), ("SELECT average(1)", "average(1)")])
            sql = pre + bad
            b.err = "Postgres Error:"
            if k == "ignored_error":
                b.tags.append("ignore-output")
        elif k == "no_output":
            shown = None
        elif k in ("unexpected_output", "empty"):
            sql = r.choice(["CREATE TEMP TABLE tt%d(i int)" % r.randrange(10**9), "SELECT 1 WHERE false", "DO $$ BEGIN END $$", "-- nothing"])
            rows = []
            shown = None if k == "empty" and r.random() < .6 else [] if k == "empty" else shown
        elif k in ("precision", "precision_ok"):
            n = r.randint(2, 14)
            x = r.choice(["%.15f" % (r.random() + 1), "日本語" * 5, "aé" * 9, "abcdefghijklmnopqrst"])
            j = r.randrange(ncol)
            by = x.encode()
            if k == "precision_ok":
                y = x[:-1] + "7" if len(x[:-1].encode()) >= n else x
            else:
                at = len(by[:n].decode(errors="ignore"))
                i = r.randrange(max(1, at))
                y = x[:i] + "Q" + x[i + 1:]
                if y.encode()[:n] == by[:n]:
                    y = "Q" + x[1:]
            cells = [[(q(x) if jj == j else q("v%d" % jj), x if jj == j else "v%d" % jj) for jj in range(ncol)]]
            sql = "SELECT " + ", ".join(c[0] for c in cells[0])
            shown = [[y if jj == j else "v%d" % jj for jj in range(ncol)]]
            d = b.limits if r.random() < .5 else b.out_limits
            d[j] = n
            if r.random() < .3:
                d[j + 1 if j + 1 < 9 else 0] = 50
            if d is b.limits:
                rec.count("precision_on_test")
        elif k == "ignore-output":
            b.tags.append("ignore-output")
            shown = r.choice([None, [["whatever"]], shown])
        elif k == "ignore":
            b.tags.append("ignore")
            sql = r.choice(["this is not SQL", "SELECT 1", "CREATE TABLE ignored(i int)"])
            shown = None
        elif k == "toolkit":
            sql, shown = "SELECT average(stats_agg(x)), num_vals(stats_agg(x)) FROM (SELECT i::float8 AS x FROM generate_series(1, 5) i) t", [["3", "5"]]
        b.must_fail = k in ("value", "extra_row", "missing_row", "extra_column", "missing_column", "sql_error", "no_output", "unexpected_output", "precision", "ignored_error")
        if b.must_fail:
            rec.count("fail:" + k.replace("ignored_error", "sql_error"))
        if k == "precision_ok":
            rec.count("pass:precision")
        b.k, b.sql, b.shown = k, sql + r.choice(["", ";", ";"]), shown
        b.nontx = not update and r.random() < .12 and "ignore" not in b.tags
        if any(ord(ch) > 127 for ch in b.sql):
            rec.count("non_ascii")
        return b

    def render(self, r, rec, b, update, indent=""):
        tags = [r.choice(["SQL", "sql", "Sql"])] + list(b.tags)
        if b.nontx:
            tags.append("non-transactional")
        tags += ["precision(%d: %d)" % x for x in sorted(b.limits.items())]
        rest = tags[1:]
        r.shuffle(rest)
        extra = getattr(b, "extra", [])
        t = r.choice([",", ", "]).join([tags[0]] + rest + extra)
        f = r.choice(["```", "```", "```", "~~~", "````"])
        lines = [f + t] + b.sql.split("\n") + [f]
        at = 0
        if b.shown is not None:
            gap = r.random()
            if gap < .2:
                lines += [""]
            elif gap < .35:
                lines += ["", r.choice(["which gives", "Here *the* result:", "<br>"]), ""]
                rec.count("text_before_output")
            w = max([len(x) for x in b.shown] or [1])
            lines += [r.choice(["```output", "``` output"]) + "".join(r.choice([",", ", "]) + "precision(%d: %d)" % x for x in sorted(b.out_limits.items()))]
            lines += [" | ".join("c%d" % i for i in range(w)), "-+-".join("---" for i in range(w))]
            lines += [r.choice(["", " ", "   "]) + r.choice([" | ", "|", "   |  "]).join(x) + r.choice(["", " "]) if x != [""] else "  " for x in b.shown]
            lines += ["```"]
        return [indent + x for x in lines]

    def filler(self, r, depth):
        k = r.random()
        if k < .35:
            d = r.randint(1, min(4, depth + 1))
            return d, ["#" * d + " " + r.choice(["Title", "Über", "A b c", "x"]) + r.choice(["", " ##", "  "])]
        if k < .5:
            return depth, ["Some *prose* with `code` and | pipes |", "over two lines."]
        if k < .6:
            return depth, ["```" + r.choice(["bash", "", "rust", "text,ignore", "python"]), "SELECT 1 / 0;", "```"]
        if k < .7:
            return depth, ["- a list", "- of things"]
        if k < .8:
            return depth, ["<div hidden>"]
        if k < .9:
            return depth, ["    SELECT 1 / 0; indented code"]
        return depth, ["> quoted"]

    def file(self, r, rec, n, update, tag):
        """-> (text, [(line, block)])"""
        lines, out, depth = [], [], 0
        table = "kept_%s" % tag
        made = False
        nontx_ok = r.random() < .5
        for _ in range(n):
            for _ in range(r.choice([0, 1, 1, 2])):
                depth, f = self.filler(r, depth)
                lines += f + [""]
            b = self.example(r, rec, update)
            if not nontx_ok:
                b.nontx = False
            ind = ""
            if r.random() < .07 and "```" not in b.sql:
                lines += ["1. in a list", ""]
                ind = "   "
                rec.count("in_list")
            # state within and between files
            s = r.random()
            if not update and b.k == "ok" and s < .45:
                b.nontx, b.tags = False, []
                if made and r.random() < .6:
                    b.sql, b.shown = "SELECT count(*) FROM %s" % table, [["3"]]
                    rec.count("state:kept")
                elif not made and nontx_ok and r.random() < .7:
                    b.nontx, made = True, True
                    b.sql, b.shown = "CREATE TABLE %s AS SELECT generate_series(1, 3) i" % table, None
                elif r.random() < .5:
                    b.sql, b.shown = "CREATE TABLE gone(i int)", None
                    rec.count("state:rolled_back")
                else:
                    b.sql, b.shown = "SELECT coalesce(to_regclass('gone')::text, 'none'), (SELECT count(*) FROM pg_class WHERE relname LIKE 'kept_%%' AND relname <> '%s')" % table, [["none", "0"]]
                    rec.count("state:other_file")
            if update:
                b.extra = []
                b.step = r.choice(["creation", "validation", "both", "none"])
                if b.step in ("creation", "both"):
                    b.extra.append("creation")
                if b.step in ("validation", "both"):
                    b.extra.append("validation")
                b.skip = False
                if r.random() < .3:
                    v = r.choice(["1.10.1", "1.25.0", "1.26.0-dev", "9.0.0", "1.999.0"])
                    b.extra.append("min-toolkit-version=" + v)
                    b.skip = v in ("9.0.0", "1.999.0")
                    if b.skip:
                        rec.count("skipped_for_version")
            out.append((len(lines) + 1, b))
            lines += self.render(r, rec, b, update, ind) + [""]
            if ind:
                lines += ["back outside", ""]
            for t in b.tags + (["non-transactional"] if b.nontx else []):
                rec.count("tag:" + t)
            rec.count("block:" + ("fail" if b.must_fail else "pass"))
        nl = "\n"
        if r.random() < .15:
            nl = "\r\n"
            rec.count("crlf")
        return nl.join(lines) + r.choice(["", nl]), out

    def tool(self, rec, args, cwd):
        rec.sql("-- " + " ".join(args))
        # messages of a test database that goes away under a failed run are of no interest
        p = subprocess.run(args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
                           env={"PATH": cwd + "/bin:/usr/bin:/bin", "HOME": cwd, "NO_COLOR": "1", "LC_ALL": "C.UTF-8", "RAYON_NUM_THREADS": str(self.threads)})
        return p.returncode, ANSI.sub("", p.stdout.decode(errors="replace")), ANSI.sub("", p.stderr.decode(errors="replace"))

    def reports(self, text):
        """[(place, kind of error)] in order"""
        out, cur = [], None
        for l in text.split("\n"):
            m = re.match(r"(\S+\.md:\d+) (`|<root>)", l)
            if m:
                cur = [m[1], None]
                out.append(cur)
            elif cur and cur[1] is None and l.startswith(("Error:", "Postgres Error:")):
                cur[1] = l.split(":")[0] + ":"
        return [tuple(x) for x in out]

    def case(self, r, idx, rec):
        d = tempfile.mkdtemp(prefix="vpd.", dir="/tmp")
        try:
            if idx % 8 == 7:
                with open(self.ctx.server.dir + "/update.lock", "w") as lk:
                    fcntl.flock(lk, fcntl.LOCK_EX)
                    self.update(r, rec, d, idx)
            else:
                self.doctest(r, rec, d, idx)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def conn_args(self, user):
        return ["-h", self.ctx.server.dir, "-p", str(pgm.PORT), "-u", user]

    def doctest(self, r, rec, d, idx):
        rec.count("tool:sql-doctester")
        docs = d + "/docs"
        os.makedirs(docs + "/sub dir/deep")
        files = {}
        clean = r.random() < .25
        for i in range(r.randint(1, 5)):
            name = docs + r.choice(["/", "/", "/sub dir/", "/sub dir/deep/"]) + "%s%d.md" % (r.choice(["a", "B", "é", "zz"]), i)
            for _ in range(50):
                # a directory where everything holds, now and then
                state = r.getstate()
                probe = type(rec)(0)
                text, blocks = self.file(r, probe, r.randint(1, 6), False, "%d" % i)
                if not clean or not any(b.must_fail for _, b in blocks):
                    break
            for n, v in probe.counts.items():
                rec.count(n, v)
            files[name] = (text, blocks)
            with open(name, "w", newline="") as f:
                f.write(text)
            rec.sql(name + "\n" + text)
        with open(docs + "/notes.txt", "w") as f:
            f.write("```SQL\nSELECT 1 / 0\n```\n")
        if r.random() < .3:
            # a link to a file elsewhere, with a relative or absolute target
            rec.count("symlink")
            text, blocks = self.file(r, rec, 2, False, "ln")
            os.makedirs(d + "/other")
            with open(d + "/other/real.md", "w", newline="") as f:
                f.write(text)
            os.symlink(r.choice(["../other/real.md", d + "/other/real.md"]), docs + "/link.md")
            files[docs + "/link.md"] = (text, blocks)
            rec.sql(docs + "/link.md\n" + text)
        want = {}
        for name, (_, blocks) in files.items():
            for line, b in blocks:
                if b.must_fail:
                    want["%s:%d" % (name.replace(" ", "\0"), line)] = b
        user = "doc%d" % (os.getpid() % 16)
        rc, out, err = self.tool(rec, [TOOLS["sql-doctester"]] + self.conn_args(user) + ["-d", "postgres", docs], d)
        self.judge(rec, "sql-doctester", docs, rc, self.reports(out.replace(docs + "/sub dir", docs + "/sub\0dir")), want, out, err)
        left = self.Q(rec, "SELECT count(*) FROM pg_database d JOIN pg_roles a ON a.oid=d.datdba WHERE a.rolname='%s'" % user)
        rec.count("dropped")
        if left != [["0"]] and rc != 101:
            rec.fail("doctester:left-behind", "sql-doctester left %s databases behind" % left[0][0])
            for x in self.Q(rec, "SELECT datname FROM pg_database d JOIN pg_roles a ON a.oid=d.datdba WHERE a.rolname='%s'" % user):
                self.conn.exec('DROP DATABASE "%s" WITH (FORCE)' % x[0])

    def judge(self, rec, tool, root, rc, got, want, out, err):
        show = lambda s: s.replace("\0", " ").replace(root + "/", "")
        if rc not in (0, 1):
            why = [l for l in err.split("\n") if "panicked" in l]
            at = err.find("panicked")
            rec.fail("%s:died" % tool, "%s ended with status %d: %s" % (tool, rc, err[at:at + 500] if why else err[-500:]))
            return
        places = [p for p, _ in got]
        miss = [p for p in want if p not in places]
        over = [p for p in places if p not in want]
        for p in miss[:2]:
            rec.fail("%s:missed:%s" % (tool, want[p].k), "%s does not report %s, an example that fails (%s): %s / shown %s" % (tool, show(p), want[p].k, want[p].sql[:300], want[p].shown))
        for p in over[:2]:
            rec.fail("%s:false-report" % tool, "%s reports %s, an example that holds; output: %s" % (tool, show(p), show(out[out.find(p):])[:900]))
        if len(set(places)) != len(places):
            rec.fail("%s:twice" % tool, "%s reports an example twice: %s" % (tool, [show(p) for p in places]))
        for p, kind in got:
            if p in want and kind and kind != want[p].err:
                rec.fail("%s:kind" % tool, "%s reports %s as '%s', but it is '%s'" % (tool, show(p), kind, want[p].err))
        for p in want:
            at = want[p].at
            text = out.replace(root + "/sub dir", root + "/sub\0dir")
            i = text.find(p + " ")
            if at and i >= 0:
                rec.count("pointed_at")
                if "~>" + at not in text[i:i + 400].split("Postgres Error:")[0]:
                    rec.fail("%s:place-in-sql" % tool, "%s does not point at %s in %s, but shows %s" % (tool, at, want[p].sql, text[i:i + 300]))
        if rc != (1 if want else 0):
            rec.fail("%s:status" % tool, "%s ended with status %d, %d examples fail" % (tool, rc, len(want)))
        rec.count("some_failed" if want else "all_passed")
        rec.seen((tool, [b.k for b in want.values()], len(got), rc))
        rec.sample = "%s: status %d, reported %s" % (tool, rc, [show(p) for p in places][:6])

    def update(self, r, rec, d, idx):
        rec.count("tool:update-tester")
        tests = d + "/tests/update"
        os.makedirs(tests)
        self.layout(rec, d)
        files = {}
        for i in range(r.randint(1, 3)):
            name = "tests/update/f%d.md" % i
            text, blocks = self.file(r, rec, r.randint(2, 8), True, "%d" % i)
            files[name] = blocks
            with open(d + "/" + name, "w", newline="") as f:
                f.write(text)
            rec.sql(name + "\n" + text)
        for step, sub in (("creation", "create-test-objects"), ("validation", "validate-test-objects")):
            rec.count(step.replace("creation", "create").replace("validation", "validate") + "_step")
            want = {}
            for name, blocks in files.items():
                for line, b in blocks:
                    if b.must_fail and b.step in (step, "both") and not b.skip:
                        want["%s:%d" % (name, line)] = b
            rc, out, err = self.tool(rec, [TOOLS["update-tester"], sub] + self.conn_args("postgres") + ["-d", "postgres"], d)
            n = len(rec.viol)
            self.judge(rec, "update-tester", d, rc, self.reports(err), want, err, err)
            if len(rec.viol) > n:
                break
        for x in self.Q(rec, "SELECT datname FROM pg_database WHERE datname ~ '^f[0-9]_' OR datname = 'tsdb_toolkit_test'"):
            self.conn.exec('DROP DATABASE "%s" WITH (FORCE)' % x[0])

    def layout(self, rec, d):
        """what update-tester looks for in its working directory"""
        os.makedirs(d + "/extension")
        os.makedirs(d + "/bin")
        # the tool asks for a locale of the system; the new database needs that of the server
        with open(d + "/bin/locale", "w") as f:
            f.write("#!/bin/sh\necho C\n%s" % ("echo C.UTF-8\n" if "UTF" in self.Q(rec, "SELECT datcollate FROM pg_database WHERE datname = 'template1'")[0][0].upper() else ""))
        os.chmod(d + "/bin/locale", 0o755)
        for f in ("timescaledb_toolkit.control", "Cargo.toml"):
            shutil.copyfile(build.REPO + "/extension/" + f, d + "/extension/" + f)
